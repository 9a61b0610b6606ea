"""Path facts: disjunctions of conjunctions of membership constraints term -> ISet."""
from terms import *

CAP = 48
LOSSY = [0]      # conditions dropped because there were too many alternatives


class Conj:
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '{' + '; '.join('%s in %r' % (show(t), s) for t, s in sorted(self.d.items(), key=lambda x: x[0].id)) + '}'


EMPTYC = Conj({})
TOP = (EMPTYC,)


def cset(c, t):
    """Over-approximation of the values t can take under conjunction c."""
    s = c.d.get(t)
    if s is not None:
        return s
    op = t.op
    if op == 'int':
        return iset(t.a[0])
    if op == 'not':
        x = cset(c, t.a[0])
        return iset(*[1 - v for v in (0, 1) if x.has(v)])
    if op == 'in':
        x = cset(c, t.a[0])
        if isubset(x, t.a[1]):
            return iset(1)
        if iinter(x, t.a[1]).empty():
            return iset(0)
        return BOOL
    if op in ('le0', 'eq0'):
        r = cset(c, t.a[0])
        lo, hi = r.lo(), r.hi()
        if op == 'le0':
            if hi is not None and hi <= 0:
                return iset(1)
            if lo is not None and lo > 0:
                return iset(0)
        else:
            if not r.has(0):
                return iset(0)
            if r.single() == 0:
                return iset(1)
        return BOOL
    if op == 'lin':
        lo = hi = t.a[0]
        for k, v in t.a[1]:
            s = cset(c, k)
            l, h = s.lo(), s.hi()
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return irange(lo, hi)
    if op == 'wrap':
        x = cset(c, t.a[1])
        if x.lo() is not None and x.hi() is not None and x.lo() >= 0 and x.hi() < (1 << t.a[0]):
            return x
    if op == 'band':
        x, y = cset(c, t.a[0]), cset(c, t.a[1])
        if not x.has(1) or not y.has(1):
            return iset(0)
        if not x.has(0) and not y.has(0):
            return iset(1)
    if op == 'bor':
        x, y = cset(c, t.a[0]), cset(c, t.a[1])
        if not x.has(0) or not y.has(0):
            return iset(1)
        if not x.has(1) and not y.has(1):
            return iset(0)
    return rng(t)


def _put(c, t, s):
    o = c.d.get(t)
    n = iinter(s, o if o is not None else rng(t))
    if n.empty():
        return None
    if o is not None and n == o:
        return c
    if o is None and n == rng(t):
        return c
    d = dict(c.d)
    d[t] = n
    if t.op == 'eq' and n.single() == 1:
        # x == 'A' excludes x == 'B'
        x, y = t.a
        for k, v in c.d.items():
            if k.op == 'eq' and v.single() == 1 and k is not t:
                for p, q in ((x, y), (y, x)):
                    for r, w in (k.a, k.a[::-1]):
                        if p is r and q.op == 'bytes' and w.op == 'bytes' and q is not w:
                            return None
    return Conj(d)


def assume(c, t, s):
    """Conjunctions covering c and (t in s)."""
    op = t.op
    if op == 'int':
        return [c] if s.has(t.a[0]) else []
    if op == 'not':
        return assume(c, t.a[0], iset(*[1 - v for v in (0, 1) if s.has(v)]))
    if op == 'in':
        if s.has(1) and s.has(0):
            return [c]
        if s.has(1):
            return assume(c, t.a[0], t.a[1])
        if s.has(0):
            return assume(c, t.a[0], icompl(t.a[1], rng(t.a[0])))
        return []
    cur = cset(c, t)
    if iinter(cur, s).empty():
        return []
    if isubset(cur, s):
        return [c]
    if op == 'lin' and len(t.a[1]) == 1:
        k, v = t.a[1][0]
        iv = []
        for l, h in s.iv:
            l2 = None if l is None else l - t.a[0]
            h2 = None if h is None else h - t.a[0]
            if v < 0:
                l2, h2 = (None if h2 is None else -h2), (None if l2 is None else -l2)
            w = abs(v)
            l2 = None if l2 is None else -((-l2) // w)
            h2 = None if h2 is None else h2 // w
            if l2 is None or h2 is None or l2 <= h2:
                iv.append((l2, h2))
        return assume(c, k, iunion(ISet(tuple(iv)), EMPTY)) if iv else []
    if op == 'lin':
        out = [c]
        if s.lo() is not None or s.hi() is not None:
            if len(s.iv) == 1:
                if s.lo() is not None:
                    out = [y for x in out for y in assume(x, le0(sub(num(s.lo()), t)), iset(1))]
                if s.hi() is not None:
                    out = [y for x in out for y in assume(x, le0(sub(t, num(s.hi()))), iset(1))]
        if len(s.iv) > 1:
            r = _put(c, t, s)
            out = [r] if r is not None else []
        return out
    if op == 'band':
        if s.single() == 1:
            return [y for x in assume(c, t.a[0], iset(1)) for y in assume(x, t.a[1], iset(1))]
        if s.single() == 0:
            return assume(c, t.a[0], iset(0)) + [y for x in assume(c, t.a[0], iset(1)) for y in assume(x, t.a[1], iset(0))]
    if op == 'bor':
        if s.single() == 0:
            return [y for x in assume(c, t.a[0], iset(0)) for y in assume(x, t.a[1], iset(0))]
        if s.single() == 1:
            return assume(c, t.a[0], iset(1)) + [y for x in assume(c, t.a[0], iset(0)) for y in assume(x, t.a[1], iset(1))]
    if op == 'ite':
        return [y for x in assume(c, t.a[0], iset(1)) for y in assume(x, t.a[1], s)] + \
               [y for x in assume(c, t.a[0], iset(0)) for y in assume(x, t.a[2], s)]
    if op == 'case':
        return [y for ds, v in t.a[1] for x in assume(c, t.a[0], ds) for y in assume(x, v, s)]
    if op == 'discr' and t.a[0].op == 'cmp3':
        k, x, y = t.a[0].a
        out = []
        L = lt if k == 'int' else lexlt
        E = eqi if k == 'int' else eq
        if s.has(-1):
            out += assume(c, L(x, y), iset(1))
        if s.has(0):
            out += assume(c, E(x, y), iset(1))
        if s.has(1):
            out += assume(c, L(y, x), iset(1))
        return dnf_norm(out)
    if op == 'eq0' and s.single() == 1:
        # x + c == 0 over two atoms is kept as a fact; also propagate simple intervals
        r = _put(c, t, s)
        return [r] if r is not None else []
    r = _put(c, t, s)
    return [r] if r is not None else []


def lexlt(x, y):
    if x is y:
        return FALSE
    if x.op == 'bytes' and y.op == 'bytes':
        return num(x.a[0] < y.a[0])
    return mk('lexlt', x, y)


def weaker(a, b):
    """True if conjunction a implies conjunction b."""
    if len(b.d) > len(a.d):
        return False
    for t, s in b.d.items():
        o = a.d.get(t)
        if o is None or not (o == s or isubset(o, s)):
            return False
    return True


def _merge2(a, b):
    """Lossless union of two conjunctions as one, or None."""
    if weaker(a, b):
        return b
    if weaker(b, a):
        return a
    if len(a.d) != len(b.d):
        return None
    diff = None
    for t, s in a.d.items():
        o = b.d.get(t)
        if o is None:
            return None
        if o != s:
            if diff is not None:
                return None
            diff = t
    if diff is None:
        return a
    d = dict(a.d)
    u = iunion(a.d[diff], b.d[diff])
    if u == rng(diff):
        del d[diff]
    else:
        d[diff] = u
    return Conj(d)


def common(a, b):
    d = {}
    for t, s in a.d.items():
        o = b.d.get(t)
        if o is not None:
            u = iunion(s, o)
            if u != rng(t):
                d[t] = u
    return Conj(d)


def dnf_norm(cs, cap=CAP):
    out = []
    pend = list(dict.fromkeys(cs))
    while pend:
        c = pend.pop()
        for i, o in enumerate(out):
            m = _merge2(c, o)
            if m is not None:
                out.pop(i)
                pend.append(m)
                break
        else:
            out.append(c)
    while len(out) > cap:
        LOSSY[0] += 1
        # lossy: join the two with the largest common part among the last ones
        best = None
        last = out[-1]
        for i in range(len(out) - 1):
            n = len(common(out[i], last).d)
            if best is None or n > best[0]:
                best = (n, i)
        m = common(out[best[1]], last)
        out.pop()
        out.pop(best[1])
        out = list(dnf_norm(out + [m], 10 ** 9))
    return tuple(sorted(out, key=lambda c: sorted((t.id, s.iv[0][0] is None or s.iv[0][0]) for t, s in c.d.items()).__repr__())) if len(out) > 1 else tuple(out)


def dnf_assume(cs, t, s):
    out = []
    for c in cs:
        out += assume(c, t, s)
    if len(out) > 1:
        return dnf_norm(out)
    return tuple(out)


def dnf_common(cs):
    r = None
    for c in cs:
        r = c if r is None else common(r, c)
    return r or EMPTYC


# ------------------------------------------------------------------ linear reasoning
def lin_constraints(c, extra=()):
    """List of linear terms L meaning L <= 0, from the facts of c and the ranges of the atoms in them."""
    out = []
    atoms = set()

    def addL(L):
        if is_num(L):
            if L.a[0] > 0:
                out.append(L)
            return
        out.append(L)
        for k in lin_parts(L)[1]:
            atoms.add(k)
    for t, s in c.d.items():
        if t.op == 'le0':
            if s.single() == 1:
                addL(t.a[0])
            elif s.single() == 0:
                addL(sub(num(1), t.a[0]))
        elif t.op == 'eq0' and s.single() == 1:
            addL(t.a[0])
            addL(scale(t.a[0], -1))
        elif t.op == 'eq' and s.single() == 1:
            a, b = t.a
            try:
                d = sub(seqlen(a), seqlen(b))
            except Exception:
                continue
            addL(d)
            addL(scale(d, -1))
    for L in extra:
        addL(L)
    done = set()
    while atoms - done:
        for k in list(atoms - done):
            done.add(k)
            s = cset(c, k)
            if s.lo() is not None:
                out.append(sub(num(s.lo()), k))
            if s.hi() is not None:
                out.append(sub(k, num(s.hi())))
            if k.op == 'min':
                for x in k.a:
                    addL(sub(k, x))
            elif k.op == 'max':
                for x in k.a:
                    addL(sub(x, k))
            elif k.op == 'div' and is_num(k.a[1]):
                # c*k <= x <= c*k + c-1
                n = k.a[1].a[0]
                addL(sub(scale(k, n), k.a[0]))
                addL(sub(k.a[0], add(scale(k, n), num(n - 1))))
            elif k.op == 'mod':
                addL(sub(k, k.a[0]))
            elif k.op == 'wrap':
                if rng(k.a[1]).lo() is not None and rng(k.a[1]).lo() >= 0:
                    addL(sub(k, k.a[1]))
            elif k.op == 'len' and k.a[0].op in ('elem', 'fld'):
                pass
    return out


def fm_unsat(cons, limit=4000):
    """Fourier-Motzkin over the rationals (with integer tightening of single-atom bounds)."""
    rows = set()
    for L in cons:
        c, p = lin_parts(L)
        if not p:
            if c > 0:
                return True
            continue
        rows.add((c, tuple(sorted(((k.id, v) for k, v in p.items())))))
    steps = 0
    while rows:
        cnt = {}
        for c, p in rows:
            for k, v in p:
                e = cnt.setdefault(k, [0, 0])
                e[v > 0] += 1
        k = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1])
        pos = []
        neg = []
        rest = set()
        for c, p in rows:
            v = dict(p).get(k, 0)
            (pos if v > 0 else neg if v < 0 else rest).append((c, p)) if v else rest.add((c, p))
        for c1, p1 in pos:
            d1 = dict(p1)
            v1 = d1.pop(k)
            for c2, p2 in neg:
                d2 = dict(p2)
                v2 = -d2.pop(k)
                steps += 1
                if steps > limit:
                    return False
                nd = {}
                for a, v in d1.items():
                    nd[a] = nd.get(a, 0) + v * v2
                for a, v in d2.items():
                    nd[a] = nd.get(a, 0) + v * v1
                nd = {a: v for a, v in nd.items() if v}
                nc = c1 * v2 + c2 * v1
                if not nd:
                    if nc > 0:
                        return True
                    continue
                from math import gcd
                g = 0
                for v in nd.values():
                    g = gcd(g, v)
                nc = -((-nc) // g)
                rest.add((nc, tuple(sorted((a, v // g) for a, v in nd.items()))))
        rows = rest
    return False


def conj_unsat(c, extra=()):
    return fm_unsat(lin_constraints(c, extra))
