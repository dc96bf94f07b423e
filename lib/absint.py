"""Path-sensitive abstract interpreter over the SSA dump.

States are (environment, facts, memory, versions, seen atoms, tags); joins keep
states with different analysis keys (seen atoms + tags) apart, in the manner of
property simulation, and up to K states per key before widening.  No solver:
facts are intervals/disequalities on symbolic terms.
"""
import heapq, itertools, sys
from front import AnalysisBroken
from ir import PURE_LIBC

sys.setrecursionlimit(20000)

INF = 1 << 70


class Term:
    __slots__ = ('k', 'a', 'vol', 'root', 'u', '_s', 'id', 'mk')

    def __repr__(self):
        return S(self)


_tab = {}
_cnt = itertools.count()
E = frozenset()


def T(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.k = k; t.a = a
        v = set()
        for x in a:
            if isinstance(x, Term):
                if x.vol:
                    v |= x.vol
        if k in ('call', 'phi', 'j', 'unk', 'old'):
            v.add(a[0])
        elif k == 'ld':
            ver = a[1]
            if ver:
                for y in ver:
                    if y:
                        v.add(y)
        t.vol = frozenset(v) if v else E
        if k in ('al', 'g'):
            t.root = t
        elif k in ('f', 'ix'):
            t.root = a[0].root if isinstance(a[0], Term) else None
        else:
            t.root = None
        t.u = None; t._s = None
        t.id = next(_cnt)
        t.mk = None
        _tab[key] = t
    return t


def memkey(t, ty='p'):
    """key of an address term, as in Program.opkey"""
    if t.__class__ is not Term:
        return '*' + ty
    if t.k == 'f':
        return t.a[1]
    if t.k == 'ix':
        b = t.a[0]
        if b.__class__ is Term and b.k in ('f', 'ix', 'g', 'al'):
            return memkey(b, ty)
        return '*' + ty
    if t.k == 'g':
        return 'g:' + t.a[0]
    if t.k == 'al':
        return t
    return '*' + ty


def S(t):
    """unversioned printable form"""
    if t.__class__ is not Term:
        return str(t)
    s = t._s
    if s is not None:
        return s
    k = t.k; a = t.a
    if k == 'arg':
        s = '$%d' % a[0]
    elif k == 'g':
        s = '&' + a[0]
    elif k == 's':
        s = '"' + a[0] + '"'
    elif k == 'al':
        s = '&%s' % a[2]
    elif k in ('f', 'ix'):
        s = '&' + path(t)
    elif k == 'ld':
        x = a[0]
        if x.__class__ is Term and x.k in ('f', 'ix', 'g', 'al'):
            s = path(x)
        else:
            s = '*' + S(x)
    elif k == 'call':
        s = '%s(%s)' % (a[1], ','.join(S(x) for x in a[2:]))
    elif k == 'b':
        s = '(%s%s%s)' % (S(a[1]), OPS.get(a[0], a[0]), S(a[2]))
    elif k == 'cmp':
        s = '(%s %s %s)' % (S(a[1]), a[0], S(a[2]))
    elif k == 'named':
        s = a[0]
    else:
        s = '%s#%d' % (k, t.id) if k not in ('tr', 'neg') else '%s(%s)' % (k, ','.join(S(x) for x in a))
    t._s = s
    return s


OPS = {'and': '&', 'or': '|', 'add': '+', 'sub': '-', 'mul': '*', 'shl': '<<', 'xor': '^', 'lshr': '>>', 'ashr': '>>'}


def path(t):
    if t.__class__ is not Term:
        return str(t)
    if t.k == 'f':
        b = t.a[0]
        if b.__class__ is Term and b.k in ('f', 'ix', 'g', 'al'):
            p = path(b)
            if b.k == 'f' or b.k == 'ix':
                return p + '.' + t.a[1]
            return p + '.' + t.a[1]
        return S(b) + '->' + t.a[1]
    if t.k == 'ix':
        b = t.a[0]
        if b.__class__ is Term and b.k in ('f', 'ix', 'g', 'al'):
            return '%s[%s]' % (path(b), S(t.a[1]))
        return '%s[%s]' % (S(b), S(t.a[1]))
    if t.k == 'g':
        return t.a[0]
    if t.k == 'al':
        return t.a[2]
    return S(t)


NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
        'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def isT(x):
    return x.__class__ is Term


def onebit(m):
    if isT(m):
        return False
    if m < 0:
        m &= (1 << 64) - 1
    return m != 0 and m & (m - 1) == 0


def mkbin(op, a, b, ty='i64'):
    if not isT(a) and not isT(b):
        try:
            w = int(ty[1:])
            M = (1 << w) - 1
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b if 0 <= b < 128 else 0
            elif op == 'lshr': r = (a & M) >> b
            elif op == 'ashr': r = a >> b
            elif op in ('sdiv', 'udiv'):
                if b == 0: return T('b', op, a, b)
                if op == 'udiv': r = (a & M) // (b & M)
                else: r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op in ('srem', 'urem'):
                if b == 0: return T('b', op, a, b)
                if op == 'urem': r = (a & M) % (b & M)
                else: r = abs(a) % abs(b) * (-1 if a < 0 else 1)
            else: return T('b', op, a, b)
            if w == 1:
                return r & 1
            r &= M
            if r >> (w - 1): r -= 1 << w
            return r
        except ValueError:
            return T('b', op, a, b)
    if op == 'sub' and not isT(b):
        op = 'add'; b = -b
    if op in ('add', 'and', 'or', 'xor', 'mul'):
        if not isT(a):
            a, b = b, a
        elif isT(b) and a.id > b.id:
            a, b = b, a
    if not isT(b):
        if op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
            return a
        if op == 'and':
            if b == 0: return 0
            if b == -1: return a
        if op in ('mul', 'sdiv', 'udiv') and b == 1:
            return a
        if op == 'mul' and b == 0:
            return 0
        if op == 'add' and a.k == 'b' and a.a[0] == 'add' and not isT(a.a[2]):
            return mkbin('add', a.a[1], a.a[2] + b, ty)
        if op == 'xor' and b == 1 and ty == 'i1':
            return mknot(a)
        if op == 'and' and a.k == 'b':
            if a.a[0] == 'or' and not isT(a.a[2]):
                c = a.a[2]
                if c & b == b and onebit(b): return b
                if c & b == 0: return mkbin('and', a.a[1], b, ty)
            elif a.a[0] == 'and' and not isT(a.a[2]):
                return mkbin('and', a.a[1], a.a[2] & b, ty)
    if op == 'sub' and a is b:
        return 0
    return T('b', op, a, b)


def isbool(t):
    return isT(t) and t.k == 'cmp'


def mknot(t):
    if not isT(t):
        return 0 if t else 1
    if t.k == 'cmp':
        return mkcmp(NEGP[t.a[0]], t.a[1], t.a[2])
    return mkcmp('eq', t, 0)


def mkcmp(p, a, b):
    if not isT(a) and not isT(b):
        if p == 'eq': return int(a == b)
        if p == 'ne': return int(a != b)
        if p == 'slt': return int(a < b)
        if p == 'sle': return int(a <= b)
        if p == 'sgt': return int(a > b)
        if p == 'sge': return int(a >= b)
        M = (1 << 64) - 1
        a &= M; b &= M
        if p == 'ult': return int(a < b)
        if p == 'ule': return int(a <= b)
        if p == 'ugt': return int(a > b)
        if p == 'uge': return int(a >= b)
    if a is b:
        return int(p in ('eq', 'sle', 'sge', 'ule', 'uge'))
    if not isT(a):
        a, b, p = b, a, SWAP[p]
    if isT(b):
        if a.id > b.id:
            a, b, p = b, a, SWAP[p]
        if (a.k in ('al', 'g', 's') and b.k in ('al', 'g', 's')):
            if p == 'eq': return 0
            if p == 'ne': return 1
        if (a.k == 'f' or a.k == 'ix') and b is a.a[0] and p in ('eq', 'ne') and False:
            pass
    else:
        if a.k == 'cmp':
            if b == 0 and p in ('ne', 'ugt', 'sgt'): return a
            if b == 0 and p == 'eq': return mknot(a)
            if b == 1 and p == 'eq': return a
            if b == 1 and p == 'ne': return mknot(a)
        if a.k == 'b' and a.a[0] == 'add' and not isT(a.a[2]) and p in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
            return mkcmp(p, a.a[1], b - a.a[2])
        if a.k == 'b' and a.a[0] == 'sub' and b == 0 and p in ('eq', 'ne'):
            return mkcmp(p, a.a[1], a.a[2])
        if a.k == 'b' and a.a[0] == 'and' and onebit(a.a[2]) and p in ('eq', 'ne') and (b & ((1 << 64) - 1)) == (a.a[2] & ((1 << 64) - 1)):
            return mkcmp(NEGP[p], a, 0)
        if a.k in ('al', 'g', 's', 'f') and b == 0:
            # addresses of objects are never null (a field of a null pointer is not formed)
            if p in ('eq', 'ule'): return 0
            if p in ('ne', 'ugt'): return 1
        if p == 'ugt' and b == 0: p = 'ne'
        elif p == 'ult' and b == 1: p, b = 'eq', 0
        elif p == 'ule' and b == 0: p = 'eq'
        elif p == 'uge' and b == 1: p, b = 'ne', 0
        elif p == 'sle': p, b = 'slt', b + 1
        elif p == 'sgt': p, b = 'sge', b + 1
        elif p == 'ule': p, b = 'ult', b + 1
        elif p == 'ugt': p, b = 'uge', b + 1
    return T('cmp', p, a, b)


def atom_of(c, truth):
    """canonical (pred, lhs-string, rhs, truth) of a boolean term"""
    if isT(c) and c.k == 'cmp':
        p, a, b = c.a
    else:
        p, a, b = 'ne', c, 0
    if p == 'ne': p, truth = 'eq', not truth
    elif p == 'sge': p, truth = 'slt', not truth
    elif p == 'uge': p, truth = 'ult', not truth
    elif p == 'sgt': p, truth = 'sle', not truth
    elif p == 'ugt': p, truth = 'ule', not truth
    sa = S(a); sb = S(b) if isT(b) else b
    if p == 'eq' and isT(b) and sb < sa:
        sa, sb = sb, sa
    return (p, sa, sb, truth)


class State:
    __slots__ = ('env', 'facts', 'mem', 'fver', 'seen', 'tags', 'trace', 'seenvol')

    def copy(self):
        s = State()
        s.env = dict(self.env); s.facts = dict(self.facts); s.mem = dict(self.mem)
        s.fver = dict(self.fver); s.seen = self.seen; s.tags = self.tags; s.trace = self.trace
        s.seenvol = self.seenvol
        return s


TOP = (-INF, INF, E)


def new_state():
    s = State()
    s.env = {}; s.facts = {}; s.mem = {}; s.fver = {}; s.seen = E; s.tags = E; s.trace = None
    s.seenvol = {}
    return s


class Analysis:
    """Subclass and override hooks."""
    K = 6
    KLOOP = 4
    MAXDEPTH = 6
    SIGS = 40
    bits = ()
    MAXKEYS = 1500
    MAXSTEPS = 2500000

    def __init__(self, prog, frozen=None):
        self.p = prog
        self.mods = prog.modsets()
        self.sites = {}
        self._hidden = {}
        self.siteinfo = []
        self.ctxsites = {}
        self.steps = 0
        self.analysed = set()
        self.frozen = frozen
        self.stat_calls = 0
        self.entry = None

    # ---- hooks -----------------------------------------------------------
    def relevant(self, atom):
        return True

    def inline(self, f, ctx, args):
        return False

    phihook = None      # (state, function, result id, value, at a loop head): which of several values a variable got

    def on_call(self, st, f, ins, callee, args, ctx):
        """called before a call; may set st.tags; return None or a value term to use as a model"""
        return None

    def after_call(self, st, f, ins, callee, args, ret, ctx):
        return None

    def on_store(self, st, f, ins, addr, val, ctx):
        pass

    def on_load(self, st, f, ins, addr, ctx):
        pass

    def on_index(self, st, f, ins, base, idx, n, ctx):
        pass

    def on_branch(self, st, f, ins, cond, truth, ctx):
        pass

    def on_mem(self, st, f, ins, what, args, ctx): pass
    def on_ret(self, st, f, ins, val, ctx):
        pass

    def at_head(self, st, f, b, ctx):
        pass

    def model(self, name, args, st):
        """return a term/int to replace the result of an opaque call"""
        return None

    def key(self, st):
        return (st.seen, st.tags)

    # ---- utilities --------------------------------------------------------
    def site(self, ctx, f, iid):
        k = (ctx, f.key, iid)
        s = self.sites.get(k)
        if s is None:
            s = len(self.siteinfo) + 1
            self.sites[k] = s
            self.siteinfo.append((ctx, f.key, iid))
            for i in range(len(ctx) + 1):
                self.ctxsites.setdefault(ctx[:i], set()).add(s)
        return s

    def val(self, st, f, o):
        c = o.__class__
        if c is int:
            return o
        if c is list:
            k = o[0]
            if k == 'v':
                return st.env[o[1]]
            if k == 'g':
                return T('g', self.p.gkey(f, o[1]))
            if k == 's':
                return T('s', o[1])
            if k == 'gep':
                return self.gep(st, f, None, self.val(st, f, o[1]), o[2], ())
            if k == 'cast':
                return self.val(st, f, o[2])
        return T('unk', 0, repr(o)[:80])

    def gep(self, st, f, ins, base, pth, ctx):
        t = base
        for e in pth:
            if e[0] == 'f':
                t = T('f', t, e[1])
            else:
                ix = self.val(st, f, e[1])
                if ins is not None:
                    self.on_index(st, f, ins, t, ix, e[3] if e[0] == 'a' else None, ctx)
                if e[0] == 'a':
                    t = T('ix', t, ix)
                else:
                    # pointer arithmetic
                    if ix == 0 and not isT(ix):
                        continue
                    if isT(t) and t.k == 'ix':
                        ni = mkbin('add', t.a[1], ix)
                        t = T('ix', t.a[0], ni)
                    else:
                        t = T('ix', t, ix)
        return t

    def fact(self, st, t):
        if not isT(t):
            return (t, t, E)
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.k == 'b':
            op, a, b = t.a
            if op == 'and' and not isT(b) and b >= 0:
                fa = st.facts.get(a) if isT(a) else None
                if fa is not None and fa[0] == fa[1]:
                    v = fa[0] & b
                    return (v, v, E)
                # x & m == 0 known for a superset mask?
                return (0, b, E)
            if op == 'add' and not isT(b):
                l, h, n = self.fact(st, a)
                if l > -INF or h < INF:
                    return (l + b if l > -INF else l, h + b if h < INF else h, frozenset(x + b for x in n))
            elif op == 'add':
                l, h, n = self.fact(st, a); l2, h2, n2 = self.fact(st, b)
                return (l + l2 if l > -INF and l2 > -INF else -INF, h + h2 if h < INF and h2 < INF else INF, E)
            elif op == 'sub':
                l, h, n = self.fact(st, a); l2, h2, n2 = self.fact(st, b)
                return (l - h2 if l > -INF and h2 < INF else -INF, h - l2 if h < INF and l2 > -INF else INF, E)
            elif op == 'mul' and not isT(b) and b > 0:
                l, h, n = self.fact(st, a)
                return (l * b if l > -INF else l, h * b if h < INF else h, E)
            elif op in ('urem', 'srem') and not isT(b) and b > 0:
                return (0 if op == 'urem' else -b + 1, b - 1, E)
        elif t.k == 'cmp':
            return (0, 1, E)
        elif t.k in ('al', 'g', 's', 'f'):
            return (1, INF, E)
        elif t.k == 'call':
            r = self.callrange(t)
            if r:
                return r
        return TOP

    def callrange(self, t):
        return None

    def decide(self, st, c):
        """truth of a boolean term under facts: True/False/None"""
        if not isT(c):
            return bool(c)
        if c.k == 'cmp':
            p, a, b = c.a
            r = st.facts.get(c)
            if r is not None and r[0] == r[1]:
                return bool(r[0])
            l, h, n = self.fact(st, a)
            l2, h2, n2 = self.fact(st, b)
            if p in ('eq', 'ne'):
                v = None
                if h < l2 or l > h2 or (l2 == h2 and l2 in n) or (l == h and l in n2):
                    v = False
                elif l == h == l2 == h2:
                    v = True
                if v is None:
                    return None
                return v if p == 'eq' else not v
            if p[0] == 'u':
                if l < 0 or l2 < 0:
                    return None
                p = 's' + p[1:]
            if p == 'slt':
                if h < l2: return True
                if l >= h2: return False
            elif p == 'sge':
                if l >= h2: return True
                if h < l2: return False
            elif p == 'sle':
                if h <= l2: return True
                if l > h2: return False
            elif p == 'sgt':
                if l > h2: return True
                if h <= l2: return False
            return None
        l, h, n = self.fact(st, c)
        if l > 0 or h < 0 or 0 in n: return True
        if l == h == 0: return False
        return None

    def setfact(self, st, t, l, h, n):
        if not isT(t):
            return l <= t <= h and t not in n
        while l in n: l += 1
        while h in n: h -= 1
        if l > h:
            return False
        if len(n) > 24:
            n = frozenset(sorted(n)[:24])
        n = frozenset(x for x in n if l < x < h) if n else n
        st.facts[t] = (l, h, n)
        if t.k == 'b' and t.a[0] == 'add' and not isT(t.a[2]) and isT(t.a[1]):
            c = t.a[2]
            l1, h1, n1 = self.fact(st, t.a[1])
            return self.setfact(st, t.a[1], max(l1, l - c if l > -INF else l), min(h1, h - c if h < INF else h), n1 | frozenset(x - c for x in n))
        return True

    def assume(self, st, c, truth):
        """refine st; False if infeasible"""
        if not isT(c):
            return bool(c) == truth
        d = self.decide(st, c)
        if d is not None and d != truth:
            return False
        if c.k != 'cmp':
            l, h, n = self.fact(st, c)
            if truth:
                ok = self.setfact(st, c, l, h, n | {0}) if l <= 0 <= h else True
            else:
                ok = self.setfact(st, c, max(l, 0), min(h, 0), n)
            if not ok: return False
            self.note(st, c, truth)
            return True
        p, a, b = c.a
        q = p if truth else NEGP[p]
        self.note(st, c, truth)
        if isT(b):
            st.facts[c] = (int(truth), int(truth), E)
            n = mknot(c)
            if isT(n): st.facts[n] = (int(not truth), int(not truth), E)
            la, ha, na = self.fact(st, a); lb, hb, nb = self.fact(st, b)
            if q == 'eq':
                l, h, n = max(la, lb), min(ha, hb), na | nb
                return self.setfact(st, a, l, h, n) and self.setfact(st, b, l, h, n)
            if q == 'ne':
                if lb == hb: return self.setfact(st, a, la, ha, na | {lb})
                if la == ha: return self.setfact(st, b, lb, hb, nb | {la})
                return True
            if q[0] == 'u':
                if q in ('ult', 'ule') and lb >= 0:
                    la = max(la, 0)
                elif q in ('ugt', 'uge') and la >= 0:
                    lb = max(lb, 0)
                else:
                    return True
                q = 's' + q[1:]
            if q == 'slt': ha = min(ha, hb - 1 if hb < INF else hb); lb = max(lb, la + 1 if la > -INF else la)
            elif q == 'sle': ha = min(ha, hb); lb = max(lb, la)
            elif q == 'sgt': la = max(la, lb + 1 if lb > -INF else lb); hb = min(hb, ha - 1 if ha < INF else ha)
            elif q == 'sge': la = max(la, lb); hb = min(hb, ha)
            if la > ha or lb > hb:
                return False
            return self.setfact(st, a, la, ha, na) and self.setfact(st, b, lb, hb, nb)
        l, h, n = self.fact(st, a)
        if q == 'eq':
            if not (l <= b <= h) or b in n: return False
            if not self.setfact(st, a, b, b, E): return False
            if b >= 0 and a.k == 'b' and a.a[0] == 'and' and not isT(a.a[2]) and not onebit(a.a[2]) and a.a[2] > 0:
                m = a.a[2]; i = 0
                if b & ~m: return False
                while m >> i:
                    if m >> i & 1:
                        t = mkbin('and', a.a[1], 1 << i)
                        w = b & (1 << i)
                        d = self.decide(st, t)
                        if d is not None and d != bool(w): return False
                        if isT(t):
                            st.facts[t] = (w, w, E)
                            self.note(st, mkcmp('eq', t, 0), not w)
                    i += 1
            if b == 0 and a.k == 'b' and a.a[0] == 'or':
                # both zero
                for x in (a.a[1], a.a[2]):
                    if isT(x) and not self.assume(st, mkcmp('eq', x, 0), True): return False
            return True
        if q == 'ne':
            if l == h == b: return False
            if b == 0 and a.k == 'b' and a.a[0] == 'and' and not isT(a.a[2]) and not onebit(a.a[2]) and a.a[2] > 0:
                # if all but one bit known zero, the last is set
                m = a.a[2]; rest = 0; i = 0
                while m >> i:
                    if m >> i & 1:
                        t = mkbin('and', a.a[1], 1 << i)
                        if self.decide(st, t) is not False: rest |= 1 << i
                    i += 1
                if rest == 0: return False
                if onebit(rest):
                    t = mkbin('and', a.a[1], rest)
                    if isT(t):
                        self.setfact(st, t, rest, rest, E)
                        self.note(st, mkcmp('ne', t, 0), True)
            if a.k == 'b' and a.a[0] == 'and' and onebit(a.a[2]) and b == 0:
                return self.setfact(st, a, a.a[2], a.a[2], E)
            return self.setfact(st, a, l, h, n | {b})
        if q in ('ult', 'ule') and b >= 0:
            return self.setfact(st, a, max(l, 0), min(h, b - 1 if q == 'ult' else b), n) if l > -INF or True else True
        if q in ('uge', 'ugt'):
            if l >= 0 and b >= 0:
                return self.setfact(st, a, max(l, b if q == 'uge' else b + 1), h, n)
            return True
        if q == 'slt': h = min(h, b - 1)
        elif q == 'sle': h = min(h, b)
        elif q == 'sgt': l = max(l, b + 1)
        elif q == 'sge': l = max(l, b)
        if l > h: return False
        return self.setfact(st, a, l, h, n)

    def note(self, st, c, truth):
        at = atom_of(c, truth)
        if self.relevant(at):
            if at not in st.seen:
                st.seen = st.seen | {at}
                st.seenvol = dict(st.seenvol)
            if c.vol:
                if st.seenvol.get(at) is not c.vol:
                    st.seenvol = dict(st.seenvol)
                    st.seenvol[at] = c.vol

    def holds(self, st, c):
        return self.decide(st, c) is True

    # ---- memory ----------------------------------------------------------
    def load(self, st, addr, ty):
        if isT(addr):
            v = st.mem.get(addr)
            if v is not None:
                return v
            if addr.k == 'g':
                g = self.p.globals.get(addr.a[0])
                if g and g.get('const') and isinstance(g.get('init'), int):
                    return g['init']
            if addr.k == 'ix' and not isT(addr.a[1]) and isT(addr.a[0]) and addr.a[0].k == 's':
                s = addr.a[0].a[0]; i = addr.a[1]
                if 0 <= i < len(s):
                    c = ord(s[i]); return c if c < 128 else c - 256
                if i == len(s): return 0
            if addr.k == 's' and ty == 'i8':
                return ord(addr.a[0][0]) if addr.a[0] else 0
        else:
            return T('ld', addr, None)
        mk = memkey(addr, ty)
        if addr.root is not None and self.hidden(addr):
            v1 = st.fver.get(('own', mk), 0); v2 = st.fver.get(addr.root, 0)
        else:
            v1 = st.fver.get(mk, 0)
            v2 = st.fver.get(addr.root, 0) if addr.root is not None else 0
        if v1 or v2:
            return T('ld', addr, (v1, v2))
        return T('ld', addr, None)

    def kill(self, st, keys, site, addrs=()):
        """memory named by keys may have changed at site"""
        fv = st.fver
        for k in keys:
            fv[k] = site
        if st.mem:
            kk = keys
            dead = [a for a in st.mem if memkey(a, self._ty(a)) in kk and not self.hidden(a)]
            for a in dead:
                del st.mem[a]

    def hidden(self, a):
        """local variable whose address is never stored: an opaque call reaches it only as an argument (assumption: not retained)"""
        r = a.root
        if r is None or r.k != 'al': return False
        k = (r.a[1], r.a[2])
        h = self._hidden.get(k)
        if h is None:
            f = self.p.funcs[r.a[1]]
            h = True
            der = set()
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'alloca' and f.vars.get(ins[1], 'tmp%d' % ins[1]) == r.a[2]: der.add(ins[1])
            if not der: h = False
            ch = True
            while ch:
                ch = False
                for b in f.blocks:
                    for ins in b:
                        if ins[0] in ('gep', 'cast') and ins[1] not in der and any(isinstance(o, list) and o[:1] == ['v'] and o[1] in der for o in ins[3:5]):
                            der.add(ins[1]); ch = True
            for b in f.blocks:
                for ins in b:
                    o = [ins[3]] if ins[0] == 'store' else [v for _, v in ins[3]] if ins[0] == 'phi' else ins[3:] if ins[0] in ('select', 'ret') else []
                    if any(isinstance(x, list) and x[:1] == ['v'] and x[1] in der for x in o): h = False
            self._hidden[k] = h
        return h

    def _ty(self, a):
        return 'p'

    def store(self, st, addr, val, ty, site):
        if not isT(addr):
            return
        mk = memkey(addr, ty)
        exact = addr.k in ('f', 'g', 'al') or (addr.k == 'ix' and not isT(addr.a[1]))
        if addr.k == 'al':
            st.mem[addr] = val
            return
        # kill may-aliases
        if st.mem:
            dead = None
            for a in st.mem:
                if a is not addr and memkey(a, ty) == mk and not self.noalias(st, a, addr):
                    if dead is None: dead = []
                    dead.append(a)
            if dead:
                for a in dead: del st.mem[a]
        st.fver[mk] = site
        if addr.root is not None: st.fver[('own', mk)] = site
        st.mem[addr] = val

    def noalias(self, st, a, b):
        if (a.root is None) != (b.root is None):
            # a local variable is younger than anything the entry arguments point at
            r, o = (a, b) if a.root is not None else (b, a)
            if r.root.k == 'al':
                while o.k in ('f', 'ix') and isT(o.a[0]): o = o.a[0]
                if o.k == 'arg': return True
        if a.k != b.k:
            return a.root is not None and b.root is not None and a.root is not b.root
        if a.root is not None and b.root is not None and a.root is not b.root:
            return True
        if a.k == 'ix' and a.a[0] is b.a[0] and not isT(a.a[1]) and not isT(b.a[1]) and a.a[1] != b.a[1]:
            return True
        if a.k == 'f' and a.a[0] is not b.a[0] and a.root is None and b.root is None:
            c = mkcmp('eq', a.a[0], b.a[0])
            if self.decide(st, c) is False:
                return True
        return False

    def purge(self, st, sites):
        """terms created at these sites are about to be redefined"""
        def bad(t):
            return isT(t) and t.vol and not sites.isdisjoint(t.vol)
        f = [t for t in st.facts if bad(t)]
        for t in f: del st.facts[t]
        m = [a for a, v in st.mem.items() if bad(a) or bad(v)]
        for a in m: del st.mem[a]
        for i, v in list(st.env.items()):
            if bad(v):
                if -1 in v.vol or (v.k == 'old' and v.a[1] == 'deep'):
                    # an old value of an old value: one name per variable, after forgetting its previous meaning
                    d = -2 - i
                    if d not in sites:
                        st.env[i] = 0
                        self.purge(st, frozenset((d,)))
                    st.env[i] = T('old', d, 'deep')
                else:
                    st.env[i] = T('old', -1, v)
        if st.seenvol:
            dead = [at for at, v in st.seenvol.items() if not sites.isdisjoint(v)]
            if dead:
                st.seenvol = {k: v for k, v in st.seenvol.items() if k not in dead}
                st.seen = st.seen - frozenset(dead)

    # ---- joins -------------------------------------------------------------
    # widening stops at these values
    thresholds = ()

    def lower(self, x):
        return max([t for t in self.thresholds if t <= x], default=-INF)

    def upper(self, x):
        return min([t for t in self.thresholds if t >= x], default=INF)

    def join(self, a, b, where, widen):
        """join b into a (same key); returns new state"""
        s = State()
        s.tags = a.tags; s.seen = a.seen; s.trace = a.trace
        s.seenvol = a.seenvol
        if a.seenvol is not b.seenvol and a.seenvol != b.seenvol:
            sv = dict(a.seenvol)
            for k, v in b.seenvol.items():
                o = sv.get(k)
                sv[k] = v if o is None else (o | v)
            s.seenvol = sv
        renamed = {}
        env = {}
        be = b.env
        for i, v in a.env.items():
            w = be.get(i)
            if w is v or (not isT(v) and v == w and not isT(w)):
                env[i] = v
                if isT(v) and v.k == 'j' and v.a[0] == where: renamed[v] = (v, v)
            elif i in be:
                t = T('j', where, i)
                env[i] = t
                renamed[t] = (v, w)
        s.env = env
        jt = where
        facts = {}
        af, bf = a.facts, b.facts
        for t, r in af.items():
            if jt in t.vol:
                continue
            q = bf.get(t)
            if q is None:
                if b.mem or True:
                    q = self.fact(b, t)
                    if q is TOP: continue
            if r == q:
                facts[t] = r
            else:
                l = min(r[0], q[0]); h = max(r[1], q[1])
                n = frozenset(x for x in (r[2] | q[2]) if (x in r[2] or x < r[0] or x > r[1]) and (x in q[2] or x < q[0] or x > q[1]))
                if widen:
                    if q[0] < r[0]: l = self.lower(q[0])
                    if q[1] > r[1]: h = self.upper(q[1])
                if l == -INF and h == INF and not n: continue
                facts[t] = (l, h, n)
        s.facts = facts
        # facts only in b that a implies
        for t, q in bf.items():
            if t in facts or t in af or jt in t.vol: continue
            r = self.fact(a, t)
            if r is TOP: continue
            l = min(r[0], q[0]); h = max(r[1], q[1])
            n = frozenset(x for x in (r[2] | q[2]) if (x in r[2] or x < r[0] or x > r[1]) and (x in q[2] or x < q[0] or x > q[1]))
            if widen:
                if q[0] < r[0]: l = self.lower(q[0])
                if q[1] > r[1]: h = self.upper(q[1])
            if l == -INF and h == INF and not n: continue
            facts[t] = (l, h, n)
        s.mem = {}
        for ad, v in a.mem.items():
            w = b.mem.get(ad)
            if w is None and self.bits and ad.k != 'al' and jt not in ad.vol:
                w = self.load(b, ad, 'p')
            if w is None or jt in ad.vol:
                # value on the other side is the unversioned load; give up
                continue
            if w is v or (not isT(v) and not isT(w) and v == w):
                if isT(v) and jt in v.vol: 
                    if v in renamed: s.mem[ad] = v
                    elif v.k == 'j' and v.a[0] == where and v.a[1] is ad:
                        s.mem[ad] = v; renamed[v] = (v, v)
                    continue
                s.mem[ad] = v
            else:
                t = T('j', where, ad)
                s.mem[ad] = t
                renamed[t] = (v, w)
        if self.bits:
            for ad, w in b.mem.items():
                if ad in a.mem or ad.k == 'al' or jt in ad.vol: continue
                v = self.load(a, ad, 'p')
                if w is v or (not isT(v) and not isT(w) and v == w):
                    s.mem[ad] = v
                else:
                    t = T('j', where, ad)
                    s.mem[ad] = t
                    renamed[t] = (v, w)
        fv = {}
        for k in a.fver.keys() | b.fver.keys():
            x = a.fver.get(k, 0); y = b.fver.get(k, 0)
            fv[k] = x if x == y else where
        # a location stored in one arm only: its version must differ from both
        for ad in a.mem.keys() ^ b.mem.keys():
            if ad in s.mem: continue
            fv[memkey(ad)] = where
            if ad.root is not None: fv[('own', memkey(ad))] = where
            if ad.root is not None and ad.k == 'al':
                fv[ad] = where
        s.fver = fv
        for t, (v, w) in renamed.items():
            r = self.fact(a, v); q = self.fact(b, w)
            l = min(r[0], q[0]); h = max(r[1], q[1])
            n = frozenset(x for x in (r[2] | q[2]) if (x in r[2] or x < r[0] or x > r[1]) and (x in q[2] or x < q[0] or x > q[1]))
            if widen:
                if q[0] < r[0]: l = self.lower(q[0])
                if q[1] > r[1]: h = self.upper(q[1])
            for m in self.bits:
                x = self.fact(a, mkbin('and', v, m)); y = self.fact(b, mkbin('and', w, m))
                if x[0] == x[1] == y[0] == y[1]:
                    facts[mkbin('and', t, m)] = (x[0], x[0], E)
            if l == -INF and h == INF and not n: continue
            facts[t] = (l, h, n)
        return s

    def same(self, a, b):
        return a.env == b.env and a.facts == b.facts and a.mem == b.mem and a.fver == b.fver and a.seen == b.seen and a.tags == b.tags

    # ---- execution ---------------------------------------------------------
    def run_entry(self, f, setup=None, args=None):
        f = self.p.fn(f) if isinstance(f, str) else f
        self.entry = f
        st = new_state()
        a = args or [T('arg', i) for i in range(f.nargs)]
        if setup:
            setup(st, a)
        return self.run(f, a, st, (), False)

    def run(self, f, args, st, ctx, outerloop):
        self.p.cfg(f)
        self.analysed.add(f.key)
        env0 = {i: (args[i] if i < len(args) else T('unk', 0, 'arg%d' % i)) for i in range(f.nargs)}
        st = st.copy()
        st.env = env0
        pending = {0: [(st, None)]}
        heap = [(0, 0)]
        kept = {}
        joins = {}
        exits = []
        while heap:
            _, b = heapq.heappop(heap)
            ins_l = f.blocks[b]
            arr = pending.pop(b, None)
            if not arr:
                continue
            newst = []
            ishead = b in f.loophead
            multi = len(f.preds[b]) > 1
            live = f.livein[b]
            where = self.site(ctx, f, ('blk', b)) if multi or ishead else None
            for s, pred in arr:
                # phis in parallel
                if ins_l[0][0] == 'phi':
                    vals = []
                    for ins in ins_l:
                        if ins[0] != 'phi': break
                        for pb, v in ins[3]:
                            if pb == pred:
                                vals.append((ins[1], self.val(s, f, v)))
                                break
                        else:
                            vals.append((ins[1], T('unk', 0, 'phi')))
                    for i, v in vals: s.env[i] = v
                    if self.phihook is not None:
                        for i, v in vals: self.phihook(s, f, i, v, ishead)
                if multi or ishead:
                    e = s.env
                    s.env = {i: e[i] for i in live if i in e}
                if ishead: self.at_head(s, f, b, ctx)
                newst.append(s)
            if multi or ishead:
                accepted = []
                lim = self.KLOOP if ishead else self.K
                kb = kept.setdefault(b, {})
                for s in newst:
                    key = self.key(s)
                    lst = kb.setdefault(key, [])
                    if len(kb) > self.MAXKEYS:
                        import collections
                        c = collections.Counter()
                        for ks, _t in kb:
                            for at in ks: c[at] += 1
                        raise AnalysisBroken('state explosion in %s block %d: %s' % (f.key, b, [x for x in c.most_common(60) if x[1] < len(kb) * 0.95][:14]))
                    if any(self.same(s, o[1]) for o in lst):
                        continue
                    sig = frozenset((i, v) for i, v in s.env.items() if not isT(v))
                    mine = [n for n, o in enumerate(lst) if o[0] == sig]
                    if mine:
                        full = len(mine) >= lim
                    else:
                        full = len({o[0] for o in lst}) >= (lim if ishead else self.SIGS)
                    if not full:
                        lst.append((sig, s)); accepted.append((key, s))
                    else:
                        pos = mine[-1] if mine else len(lst) - 1
                        g = lst[pos][1]
                        n = joins.get((b, key), 0) + 1
                        joins[(b, key)] = n
                        j = self.join(g, s, where, n > 3 + (self.SIGS if not ishead else 0))
                        if self.same(j, g):
                            continue
                        lst[pos] = (lst[pos][0] if mine else None, j)
                        # replace an as yet unprocessed joined state
                        accepted = [x for x in accepted if x[1] is not g]
                        accepted.append((key, j))
                    
                todo = [s.copy() for _, s in accepted]
            else:
                todo = newst
            for s in todo:
                outs = self.exec_block(f, b, s, ctx, outerloop, exits)
                for s2, nb in outs:
                    pending.setdefault(nb, []).append((s2, b))
                    heapq.heappush(heap, (f.rponum[nb], nb))
        return exits

    def exec_block(self, f, b, st, ctx, outerloop, exits):
        blk = f.blocks[b]
        states = [(st, 0)]
        outs = []
        inloop = outerloop or b in f.inloop
        while states:
            st, pc = states.pop()
            n = len(blk)
            while pc < n:
                ins = blk[pc]; pc += 1
                self.steps += 1
                op = ins[0]
                if op == 'phi':
                    continue
                if op == 'load':
                    addr = self.val(st, f, ins[3])
                    self.on_load(st, f, ins, addr, ctx)
                    st.env[ins[1]] = self.load(st, addr, ins[4])
                elif op == 'gep':
                    st.env[ins[1]] = self.gep(st, f, ins, self.val(st, f, ins[3]), ins[4], ctx)
                elif op == 'store':
                    addr = self.val(st, f, ins[4]); v = self.val(st, f, ins[3])
                    self.on_store(st, f, ins, addr, v, ctx)
                    site = self.site(ctx, f, ins[1])
                    if inloop: self.purge(st, frozenset((site,)))
                    # purge may have renamed operands
                    self.store(st, addr, v, ins[5], site)
                elif op == 'icmp':
                    c = mkcmp(ins[3], self.val(st, f, ins[4]), self.val(st, f, ins[5]))
                    if isT(c):
                        d = self.decide(st, c)
                        if d is not None:
                            # keep symbolic for the record of checks, fold at branch
                            st.env[ins[1]] = c
                        else:
                            st.env[ins[1]] = c
                    else:
                        st.env[ins[1]] = c
                elif op == 'bin':
                    a = self.val(st, f, ins[4]); bb = self.val(st, f, ins[5])
                    st.env[ins[1]] = mkbin(ins[3], a, bb, ins[6])
                elif op == 'cast':
                    v = self.val(st, f, ins[4])
                    if ins[3] == 'trunc':
                        if not isT(v):
                            try:
                                w = int(ins[5][1:]); v &= (1 << w) - 1
                                if w > 1 and v >> (w - 1): v -= 1 << w
                            except ValueError:
                                pass
                        elif ins[5] == 'i1':
                            v = mkcmp('ne', v, 0) if not isbool(v) else v
                    elif ins[3] == 'zext' and not isT(v) and v < 0:
                        try:
                            v &= (1 << int(ins[6][1:])) - 1
                        except ValueError:
                            pass
                    st.env[ins[1]] = v
                elif op == 'select':
                    c = self.val(st, f, ins[3])
                    x = self.val(st, f, ins[4]); y = self.val(st, f, ins[5])
                    d = self.decide(st, c) if isT(c) else bool(c)
                    if d is None:
                        s2 = st.copy()
                        if self.assume(s2, c, False):
                            s2.env[ins[1]] = y
                            if self.phihook is not None: self.phihook(s2, f, ins[1], y, False)
                            states.append((s2, pc))
                        if not self.assume(st, c, True):
                            break
                        st.env[ins[1]] = x
                        if self.phihook is not None: self.phihook(st, f, ins[1], x, False)
                    else:
                        if isT(c): self.note(st, c, d)
                        st.env[ins[1]] = x if d else y
                elif op == 'alloca':
                    nm = f.vars.get(ins[1], 'tmp%d' % ins[1])
                    st.env[ins[1]] = T('al', self.site(ctx, f, ins[1]), f.key, nm)
                elif op == 'call':
                    r = self.do_call(st, f, ins, ctx, inloop)
                    if r is None:
                        break          # noreturn
                    if r.__class__ is list:
                        if not r: break
                        for s2 in r[1:]:
                            states.append((s2, pc))
                        st = r[0]
                elif op == 'br':
                    c = self.val(st, f, ins[3])
                    t, e = ins[4], ins[5]
                    if not isT(c):
                        tgt = t if c else e
                        outs.append((st, tgt))
                    else:
                        d = self.decide(st, c)
                        if d is not None:
                            self.note(st, c, d)
                            self.on_branch(st, f, ins, c, d, ctx)
                            outs.append((st, t if d else e))
                        else:
                            s2 = st.copy()
                            if self.assume(s2, c, False):
                                s2.trace = (st.trace, f.key, ins[2], 0)
                                self.on_branch(s2, f, ins, c, False, ctx)
                                outs.append((s2, e))
                            if self.assume(st, c, True):
                                st.trace = (st.trace, f.key, ins[2], 1)
                                self.on_branch(st, f, ins, c, True, ctx)
                                outs.append((st, t))
                    break
                elif op == 'jmp':
                    outs.append((st, ins[3]))
                    break
                elif op == 'switch':
                    c = self.val(st, f, ins[3])
                    if not isT(c):
                        for v, tb in ins[5]:
                            if v == c:
                                outs.append((st, tb)); break
                        else:
                            outs.append((st, ins[4]))
                    else:
                        dflt = st.copy(); okd = True
                        for v, tb in ins[5]:
                            s2 = st.copy()
                            cc = mkcmp('eq', c, v)
                            if self.assume(s2, cc, True):
                                s2.trace = (st.trace, f.key, ins[2], v)
                                self.on_branch(s2, f, ins, cc, True, ctx)
                                outs.append((s2, tb))
                            if okd and not self.assume(dflt, cc, False): okd = False
                        if okd:
                            outs.append((dflt, ins[4]))
                    break
                elif op == 'ret':
                    v = self.val(st, f, ins[3]) if ins[3] is not None else 0
                    self.on_ret(st, f, ins, v, ctx)
                    exits.append((st, v))
                    break
                elif op == 'unreachable':
                    break
                else:
                    st.env[ins[1]] = T('unk', self.site(ctx, f, ins[1]))
        if self.steps > self.MAXSTEPS:
            raise AnalysisBroken('analysis budget exceeded in ' + f.key)
        return outs

    def do_call(self, st, f, ins, ctx, inloop):
        c = ins[3]
        args = [self.val(st, f, a) for a in ins[4]]
        fp = None
        if isinstance(c, list) and c[0] == 'g':
            callee = self.p.gkey(f, c[1])
        else:
            fp = self.val(st, f, c)
            if isT(fp) and fp.k == 'g':
                callee = fp.a[0]
            else:
                callee = None
        self.stat_calls += 1
        site = self.site(ctx, f, ins[1])
        if callee and callee.startswith('llvm.'):
            if callee.startswith('llvm.va_') or callee.startswith('llvm.mem'):
                if callee.startswith('llvm.mem') and isT(args[0]):
                    self.on_mem(st, f, ins, callee.split('.')[1], args, ctx)
                    if inloop: self.purge(st, frozenset((site,)))
                    cells = self.copycells(st, callee, args) if 'memcpy' in callee else ()
                    self.kill_region(st, args[0], site)
                    for c, v in cells: st.mem[c] = v
            elif callee.startswith('llvm.expect'):
                st.env[ins[1]] = args[0]; return True
            elif callee.startswith('llvm.trap'):
                return None
            st.env[ins[1]] = T('unk', site)
            return True
        m = self.on_call(st, f, ins, callee, args, ctx)
        if m is not None:
            if m == 'DEAD': return None
            st.env[ins[1]] = m
            return True
        g = self.p.funcs.get(callee) if callee else None
        if g is not None and g.noreturn:
            return None
        if callee in ('exit', 'abort', '_exit', '__assert_fail'):
            return None
        if g is not None and len(ctx) < self.MAXDEPTH and not any(self.siteinfo[x - 1][1] == g.key for x in ctx) and g.key != f.key \
                and (self.isnew(g) or self.inline(g, ctx, args)):
            nctx = ctx + (site,)
            if inloop:
                subs = self.ctxsites.get(nctx)
                if subs: self.purge(st, frozenset(subs))
            saved = st.env
            ex = self.run(g, args, st, nctx, inloop)
            res = []
            groups = {}
            for s2, rv in ex:
                env = dict(saved)
                env[ins[1]] = rv
                s2.env = env
                k = (self.key(s2), rv if not isT(rv) else (rv.k if rv.k in ('cmp',) else 'T'))
                groups.setdefault(k, []).append(s2)
            for k, l in groups.items():
                uniq = []
                for s2 in l:
                    if not any(self.same(s2, o) for o in uniq):
                        uniq.append(s2)
                if len(uniq) > self.K:
                    w = self.site(nctx, g, 'ret')
                    base = uniq[self.K - 1]
                    for o in uniq[self.K:]:
                        base = self.join(base, o, w, False)
                    uniq = uniq[:self.K - 1] + [base]
                res += uniq
            for s2 in res:
                self.after_call(s2, f, ins, callee, args, s2.env[ins[1]], ctx)
            return res
        # opaque
        if inloop: self.purge(st, frozenset((site,)))
        args = [self.val(st, f, a) for a in ins[4]]
        keys = set()
        if g is not None:
            keys |= self.mods[callee]
        elif callee is None:
            for t in self.p.targets(f, ins):
                keys |= self.mods.get(t, E)
        pure = g is None and callee in PURE_LIBC
        if keys:
            fm = 0
            keep = ()
            if 'Flags.bits' in keys:
                for t in ([callee] if g is not None else self.p.targets(f, ins)):
                    fm |= self.p.flagmask.get(t, 0)
                keep = self.keptbits(st, fm)
            self.kill(st, keys, site)
            for a, m, v in keep:
                x = self.load(st, a, 'i64')
                if self.bits: st.mem[a] = x
                t = mkbin('and', x, m)
                if isT(t): st.facts[t] = (v, v, E)
        if not pure:
            for ai, a in enumerate(args):
                if isT(a) and a.k in ('al', 'f', 'ix'):
                    r = a.root
                    if r is not None and r.k == 'al':
                        if g is None: self.kill_root(st, r, site)
                        else: self.kill_under(st, r, a, keys, site, ai not in self.p.rawparams().get(callee, (ai,)))
                    elif g is None:
                        self.kill(st, {memkey(a, 'i8')}, site)
                elif isT(a) and a.k == 'g' and g is None:
                    self.kill(st, {memkey(a)}, site)
                elif isT(a) and g is None:
                    self.kill(st, {'*i8'}, site)
        m = self.model(callee, args, st) if callee else None
        if m is None:
            nm = callee or ('(*%s)' % S(fp))
            m = T('call', site, nm, *args)
        st.env[ins[1]] = m
        self.after_call(st, f, ins, callee, args, m, ctx)
        return True

    def keptbits(self, st, fm):
        """bits of client flag words known now that a call changing only the bits fm keeps"""
        out = []
        if fm == (1 << 64) - 1: return out
        cells = {}
        for a, v in st.mem.items():
            if memkey(a) == 'Flags.bits' and a.root is None: cells[a] = v
        masks = set(m for m in self.bits if not m & fm)
        for t in st.facts:
            if t.k == 'b' and t.a[0] == 'and' and not isT(t.a[2]) and not t.a[2] & fm and t.a[2] > 0:
                x = t.a[1]
                if isT(x):
                    if x.k == 'ld' and isT(x.a[0]) and memkey(x.a[0]) == 'Flags.bits' and x.a[0] not in cells and x.a[0].root is None:
                        if self.load(st, x.a[0], 'i64') is x: cells[x.a[0]] = x
                    masks.add(t.a[2])
        for a, v in cells.items():
            for m in masks:
                r = mkbin('and', v, m)
                q = self.fact(st, r)
                if q[0] == q[1]: out.append((a, m, q[0]))
        return out

    def isnew(self, g):
        return self.frozen is not None and g.key not in self.frozen and g.name not in self.frozen

    def kill_root(self, st, r, site):
        st.fver[r] = site
        dead = [a for a in st.mem if a.root is r]
        for a in dead: del st.mem[a]

    def kill_under(self, st, r, a, keys, site, typed=False):
        """a known callee got the address a inside the local variable r: it writes below a, or to fields it is known to write;
        typed: it never overwrites what a points to wholesale, so that pointer and number fields change only by stores to them"""
        while isT(a) and a.k == 'ix': a = a.a[0]
        dead = []
        for c in st.mem:
            if c.root is not r: continue
            x = c; under = False
            while isT(x):
                if x is a: under = True; break
                x = x.a[0] if x.k in ('f', 'ix') else None
            if memkey(c) in keys or (under and not (typed and a is r and c.k == 'f' and self.scalarfield(c.a[1]))): dead.append(c)
        for c in dead: del st.mem[c]
        st.fver[r] = site

    def scalarfield(self, key):
        if '.' not in key: return False
        sn, mn = key.split('.', 1)
        for m in self.p.structs.get(sn, {}).get('members', ()):
            if m[0] == mn: return '[' not in m[3] and not (m[3].startswith(('struct ', 'union ')) and '*' not in m[3]) and m[3] not in ('char',)
        return False

    def kill_region(self, st, addr, site):
        r = addr.root
        if r is not None and r.k == 'al':
            self.kill_root(st, r, site)
        mk = memkey(addr, 'i8')
        if not isT(mk):
            self.kill(st, {mk}, site)
            st.fver[('own', mk)] = site
        # all mem under this address
        dead = []
        for a in st.mem:
            x = a
            while isT(x) and x.k in ('f', 'ix'):
                x = x.a[0]
                if x is addr: dead.append(a); break
        for a in dead: del st.mem[a]
        keys = self.structkeys(addr)
        for k in keys: st.fver[k] = site; st.fver[('own', k)] = site

    def ftype(self, addr):
        if isT(addr) and addr.k == 'f' and '.' in addr.a[1]:
            sn, mn = addr.a[1].split('.', 1)
            for m in self.p.structs.get(sn, {}).get('members', ()):
                if m[0] == mn and m[3].startswith('struct ') and '*' not in m[3]:
                    return m[3][7:]
        return None

    def copycells(self, st, callee, args):
        """small struct copies are copied member by member"""
        dst, src, n = args[:3]
        sn = self.ftype(src) or self.ftype(dst)
        sd = self.p.structs.get(sn) if sn else None
        if not sd or sd.get('size') != n or not isT(src) or not isT(dst):
            return ()
        out = []
        for m in sd['members']:
            ty = m[3]
            key = '%s.%s' % (sn, m[0])
            if ty.startswith('['):
                cnt = int(ty[1:ty.index(']')])
                if cnt > 8 or 'struct' in ty: continue
                idx = range(cnt)
            elif ty.startswith('struct ') and '*' not in ty: continue
            else: idx = None
            d = T('f', dst, key); s_ = T('f', src, key)
            for i in idx if idx is not None else (None,):
                a, b = (d, s_) if i is None else (T('ix', d, i), T('ix', s_, i))
                out.append((a, self.load(st, b, 'i64')))
        return out

    def structkeys(self, addr):
        # whole-struct overwrite through a field address: bump members of that struct
        if addr.k == 'f':
            sn, m = addr.a[1].split('.', 1)
            for mm in self.p.structs.get(sn, {}).get('members', []):
                if mm[0] == m and mm[3].startswith('struct '):
                    s2 = mm[3][7:]
                    return [s2 + '.' + x[0] for x in self.p.structs.get(s2, {}).get('members', [])]
        return []


def trace_lines(st, n=12):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append('%s:%s=%s' % (t[1], t[2], t[3]))
        t = t[0]
    return out[::-1]
