"""Hash-consed value terms, exact linear integer forms, interval sets and fact conjunctions.

Terms are immutable and interned, so equality is identity.  Integer terms are mathematical integers.
"""
import itertools


class T:
    __slots__ = ('op', 'a', 'id', '_atoms', '_hs')

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t._atoms = None
        t._hs = None
        _tab[k] = t
        _all.append(t)
    return t


def subterms(t):
    """All T nodes contained in t (cached frozenset of ids is too big; yields with a visited set)."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def subst(t, m, memo=None):
    """Replaces subterms (keys of m: T -> T), rebuilding with the smart constructors where needed."""
    if memo is None:
        memo = {}
    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None:
                return r
            r = m.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                if all(p is q for p, q in zip(na, x.a)):
                    r = x
                else:
                    r = rebuild(x.op, na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            n = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(n, x)) else n
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


def rebuild(op, a):
    f = _REB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


# ---------------------------------------------------------------- integers
def num(v):
    return mk('int', int(v))


TRUE = num(1)
FALSE = num(0)


def is_num(t):
    return t.op == 'int'


def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return num(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(parts.items(), key=lambda kv: kv[0].id)))


def add(x, y, sy=1):
    c1, p1 = lin_parts(x)
    c2, p2 = lin_parts(y)
    p = dict(p1)
    for k, v in p2.items():
        p[k] = p.get(k, 0) + sy * v
    return mklin(c1 + sy * c2, p)


def sub(x, y):
    return add(x, y, -1)


def scale(x, c):
    k, p = lin_parts(x)
    return mklin(k * c, {a: v * c for a, v in p.items()})


def mul(x, y):
    if is_num(x):
        return scale(y, x.a[0])
    if is_num(y):
        return scale(x, y.a[0])
    if x.id > y.id:
        x, y = y, x
    return mk('mul', x, y)


def _relin(c, parts):
    r = num(c)
    for k, v in parts:
        r = add(r, scale(k, v))
    return r


# ---------------------------------------------------------------- interval sets
INF = None


class ISet:
    """Finite union of closed integer intervals; bounds may be infinite (None)."""
    __slots__ = ('iv',)

    def __init__(self, iv):
        self.iv = iv

    def __eq__(self, o):
        return self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __repr__(self):
        return '{' + ','.join(('%s' % l if l == h else '%s..%s' % (l if l is not None else '', h if h is not None else '')) for l, h in self.iv) + '}'

    def empty(self):
        return not self.iv

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def single(self):
        if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1] and self.iv[0][0] is not None:
            return self.iv[0][0]
        return None

    def has(self, v):
        return any((l is None or l <= v) and (h is None or v <= h) for l, h in self.iv)


def _norm(iv):
    if len(iv) <= 1:
        return ISet(tuple(iv))
    iv = sorted(iv, key=lambda p: (-10 ** 60 if p[0] is None else p[0]))
    out = [list(iv[0])]
    for l, h in iv[1:]:
        ph = out[-1][1]
        if ph is None or (l is not None and l <= ph + 1) or l is None:
            if ph is not None and (h is None or h > ph):
                out[-1][1] = h
        else:
            out.append([l, h])
    return ISet(tuple((l, h) for l, h in out))


def iset(*vals):
    return _norm([(v, v) for v in vals])


def irange(l, h):
    if l is not None and h is not None and l > h:
        return ISet(())
    return ISet(((l, h),))


FULL = irange(None, None)
EMPTY = ISet(())


def iunion(a, b):
    return _norm(list(a.iv) + list(b.iv))


def iinter(a, b):
    if a.iv == b.iv:
        return a
    out = []
    for l1, h1 in a.iv:
        for l2, h2 in b.iv:
            l = l1 if l2 is None else (l2 if l1 is None else max(l1, l2))
            h = h1 if h2 is None else (h2 if h1 is None else min(h1, h2))
            if l is None or h is None or l <= h:
                out.append((l, h))
    return _norm(out)


def icompl(a, univ=FULL):
    out = []
    cur = None
    first = True
    for l, h in a.iv:
        if l is None:
            pass
        elif first:
            out.append((None, l - 1))
        else:
            out.append((cur, l - 1))
        first = False
        if h is None:
            return iinter(_norm(out), univ)
        cur = h + 1
    if first:
        return univ
    out.append((cur, None))
    return iinter(_norm(out), univ)


def isubset(a, b):
    return iinter(a, b).iv == a.iv


BOOL = irange(0, 1)

# ---------------------------------------------------------------- types of atoms (ranges)
ranges = {}   # T -> ISet (static range of opaque integer atoms)


def set_range(t, r):
    if t.op in ('int', 'lin'):
        return
    o = ranges.get(t)
    if o is None:
        ranges[t] = r


_BOOLOPS = {'sigok', 'done', 'charbound', 'eq', 'eq0', 'le0', 'in', 'not', 'ovf', 'band', 'bor', 'bxor', 'exists', 'strp', 'lexlt'}


def rng(t, depth=0):
    op = t.op
    if op == 'int':
        return iset(t.a[0])
    r = ranges.get(t)
    if r is not None:
        return r
    if op == 'lin':
        lo = hi = t.a[0]
        for k, v in t.a[1]:
            s = rng(k)
            l, h = s.lo(), s.hi()
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return irange(lo, hi)
    if op in _BOOLOPS:
        return BOOL
    if op == 'len':
        return irange(0, (1 << 63) - 1)
    if op == 'wrap':
        return irange(0, (1 << t.a[0]) - 1)
    if op == 'and':
        h = []
        for x in t.a:
            s = rng(x)
            if s.lo() is not None and s.lo() >= 0 and s.hi() is not None:
                h.append(s.hi())
        return irange(0, min(h) if h else None)
    if op == 'or' or op == 'xor':
        h = [rng(x).hi() for x in t.a]
        if any(x is None for x in h):
            return irange(0, None)
        return irange(0, (1 << max(x.bit_length() for x in h)) - 1)
    if op == 'div':
        s = rng(t.a[0])
        if is_num(t.a[1]) and s.lo() is not None and s.lo() >= 0:
            c = t.a[1].a[0]
            return irange(s.lo() // c, None if s.hi() is None else s.hi() // c)
        return irange(0, None)
    if op == 'mod':
        if is_num(t.a[1]):
            s = rng(t.a[0])
            h = t.a[1].a[0] - 1
            if s.hi() is not None and s.hi() < h:
                h = s.hi()
            return irange(0, h)
        return irange(0, None)
    if op in ('min', 'max'):
        ss = [rng(x) for x in t.a]
        los = [s.lo() for s in ss]
        his = [s.hi() for s in ss]
        f = min if op == 'min' else max
        if op == 'min':
            lo = None if any(x is None for x in los) else min(los)
            hs = [x for x in his if x is not None]
            hi = min(hs) if hs else None
        else:
            ls = [x for x in los if x is not None]
            lo = max(ls) if ls else None
            hi = None if any(x is None for x in his) else max(his)
        return irange(lo, hi)
    if op == 'ite':
        return iunion(rng(t.a[1]), rng(t.a[2]))
    if op == 'case':
        r = EMPTY
        for s, v in t.a[1]:
            r = iunion(r, rng(v))
        return r
    if op == 'shl':
        return irange(0, None)
    if op == 'frombe':
        return irange(0, (1 << t.a[0]) - 1)
    if op == 'posof':
        return irange(0, (1 << 63) - 1)
    if op == 'count':
        return irange(0, (1 << 63) - 1)
    return FULL


# ---------------------------------------------------------------- smart constructors
def wrap(bits, t):
    """t modulo 2^bits"""
    if is_num(t):
        return num(t.a[0] % (1 << bits))
    s = rng(t)
    if s.lo() is not None and s.hi() is not None and s.lo() >= 0 and s.hi() < (1 << bits):
        return t
    if t.op == 'wrap':
        if t.a[0] >= bits:
            return wrap(bits, t.a[1])
    if t.op == 'lin':
        m = 1 << bits
        c, p = lin_parts(t)
        np = {}
        for k, v in p.items():
            if v % m == 0:
                continue
            np[k] = v % m if v % m <= m // 2 else v % m - m
        n = mklin(c % m, np)
        if n is not t:
            return wrap(bits, n)
    if t.op == 'and' and False:
        pass
    return mk('wrap', bits, t)


def mod(t, c):
    """t mod constant c, t >= 0"""
    if is_num(t):
        return num(t.a[0] % c)
    s = rng(t)
    if s.lo() is not None and s.lo() >= 0 and s.hi() is not None and s.hi() < c:
        return t
    if t.op == 'mod' and is_num(t.a[1]) and t.a[1].a[0] % c == 0:
        return mod(t.a[0], c)
    if t.op == 'wrap' and (1 << t.a[0]) % c == 0 and rng(t.a[1]).lo() is not None and rng(t.a[1]).lo() >= 0:
        return mod(t.a[1], c)
    if t.op == 'lin':
        k, p = lin_parts(t)
        np = {a: v % c for a, v in p.items()}
        n = mklin(k % c, np)
        if n is not t:
            return mod(n, c)
    return mk('mod', t, num(c))


def div(t, c):
    """floor(t / constant c), t >= 0"""
    if c == 1:
        return t
    if is_num(t):
        return num(t.a[0] // c)
    s = rng(t)
    if s.lo() is not None and s.hi() is not None and s.lo() >= 0 and s.hi() < c:
        return num(0)
    if t.op == 'div' and is_num(t.a[1]):
        return div(t.a[0], c * t.a[1].a[0])
    if t.op == 'lin':
        k, p = lin_parts(t)
        if k % c == 0 and all(v % c == 0 for v in p.values()):
            return mklin(k // c, {a: v // c for a, v in p.items()})
        # split off exact multiples when the rest stays within [0, c)
        ex = {a: v // c for a, v in p.items() if v % c == 0}
        if ex:
            rest = mklin(k % c, {a: v for a, v in p.items() if v % c != 0})
            r = rng(rest)
            if r.lo() is not None and r.lo() >= 0:
                return add(mklin(k // c, ex), div(rest, c))
    return mk('div', t, num(c))


def _pow2(n):
    return n > 0 and n & (n - 1) == 0


def bitand(x, y):
    if is_num(x) and is_num(y):
        return num(x.a[0] & y.a[0])
    if is_num(x):
        x, y = y, x
    if is_num(y):
        m = y.a[0]
        if m == 0:
            return num(0)
        if _pow2(m + 1):
            return mod(x, m + 1)
        if x.op == 'and' and is_num(x.a[1]):
            return bitand(x.a[0], num(m & x.a[1].a[0]))
        s = rng(x)
        if s.hi() is not None and s.lo() is not None and s.lo() >= 0:
            m2 = m & ((1 << s.hi().bit_length()) - 1)
            if m2 != m:
                return bitand(x, num(m2))
        # mask of the form high bits only: x - x mod 2^k
        if s.hi() is not None:
            w = (1 << s.hi().bit_length()) - 1
            low = w & ~m
            if _pow2(low + 1) and (m | low) == w:
                return sub(x, mod(x, low + 1))
        return mk('and', x, y)
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('and', x, y)


def _bitmask(t):
    """Over-approximation of the set of bits that can be 1 (None if unknown/negative)."""
    if t.op == 'int':
        return t.a[0] if t.a[0] >= 0 else None
    if t.op == 'and' and is_num(t.a[1]):
        return t.a[1].a[0]
    if t.op == 'lin' and t.a[0] >= 0:
        m = t.a[0]
        for k, v in t.a[1]:
            if v < 0 or not _pow2(v):
                return None
            b = _bitmask(k)
            if b is None:
                return None
            b *= v
            if b & m:
                return None if True else m
            m |= b
        return m
    s = rng(t)
    if s.lo() is not None and s.lo() >= 0 and s.hi() is not None:
        return (1 << s.hi().bit_length()) - 1
    return None


def joined_be(t):
    """Big-endian reading of adjacent bytes put together with shifts and ors."""
    c, p = lin_parts(t)
    if c or len(p) < 2 or len(p) > 8:
        return t
    by = {}
    for k, v in p.items():
        if k.op == 'idx':
            b = [k]
        elif k.op == 'frombe' and k.a[0] in (16, 32) and k.a[1].op == 'slice':
            b = [mk('idx', k.a[1].a[0], add(k.a[1].a[1], num(i))) for i in range(k.a[0] // 8)]
        else:
            return t
        for i, e in enumerate(reversed(b)):
            w = v << 8 * i
            if v <= 0 or w in by:
                return t
            by[w] = e
    n = len(by)
    if n not in (2, 4, 8) or sorted(by) != [1 << 8 * i for i in range(n)]:
        return t
    e = by[1 << 8 * (n - 1)]
    S, lo = e.a
    if any(by[1 << 8 * (n - 1 - i)] is not mk('idx', S, add(lo, num(i))) for i in range(n)):
        return t
    r = frombe(8 * n, slice_(S, lo, add(lo, num(n))))
    if not is_num(r) and r not in ranges:
        set_range(r, irange(0, (1 << 8 * n) - 1))
    return r


def bitor(x, y):
    if is_num(x) and is_num(y):
        return num(x.a[0] | y.a[0])
    if is_num(x) and x.a[0] == 0:
        return y
    if is_num(y) and y.a[0] == 0:
        return x
    if x is y:
        return x
    mx, my = _bitmask(x), _bitmask(y)
    if mx is not None and my is not None and mx & my == 0:
        return joined_be(add(x, y))
    if is_num(x) or (not is_num(y) and x.id > y.id):
        x, y = y, x
    return mk('or', x, y)


def bitxor(x, y):
    if is_num(x) and is_num(y):
        return num(x.a[0] ^ y.a[0])
    if x is y:
        return num(0)
    if is_num(x) or (not is_num(y) and x.id > y.id):
        x, y = y, x
    return mk('xor', x, y)


def shl(x, k, bits):
    if is_num(k):
        return wrap(bits, scale(x, 1 << k.a[0]))
    return mk('shl', x, k, bits)


def shr(x, k):
    if is_num(k):
        return div(x, 1 << k.a[0])
    return mk('shr', x, k)


# booleans -----------------------------------------------------------------
def notb(t):
    if is_num(t):
        return num(1 - t.a[0])
    if t.op == 'not':
        return t.a[0]
    if t.op == 'in':
        return inset(t.a[0], icompl(t.a[1], rng(t.a[0])))
    return mk('not', t)


def inset(t, s):
    s = iinter(s, rng(t))
    if s.empty():
        return FALSE
    if s == rng(t):
        return TRUE
    return mk('in', t, s)


def le0(t):
    """t <= 0"""
    if is_num(t):
        return num(t.a[0] <= 0)
    r = rng(t)
    if r.hi() is not None and r.hi() <= 0:
        return TRUE
    if r.lo() is not None and r.lo() > 0:
        return FALSE
    c, p = lin_parts(t)
    if len(p) == 1:
        (k, v), = p.items()
        # v*k + c <= 0
        if v > 0:
            return inset(k, irange(None, (-c) // v))
        return inset(k, irange(-((-c) // (-v)) if False else -((c) // v) if False else _ceildiv(c, -v), None))
    # canonical sign: first coefficient positive
    k0 = min(p, key=lambda k: k.id)
    if p[k0] < 0:
        return notb(mk('le0', sub(num(1), t)))
    return mk('le0', t)


def _ceildiv(a, b):
    return -((-a) // b)


def lt(x, y):
    return le0(add(sub(x, y), num(1)))


def le(x, y):
    return le0(sub(x, y))


def eqi(x, y):
    """integer equality"""
    if x is y:
        return TRUE
    d = sub(x, y)
    if is_num(d):
        return num(d.a[0] == 0)
    r = rng(d)
    if not r.has(0):
        return FALSE
    c, p = lin_parts(d)
    if len(p) == 1:
        (k, v), = p.items()
        if c % v:
            return FALSE
        return inset(k, iset(-c // v))
    k0 = min(p, key=lambda k: k.id)
    if p[k0] < 0:
        d = scale(d, -1)
    return mk('eq0', d)


def band(x, y):
    if is_num(x):
        return y if x.a[0] else FALSE
    if is_num(y):
        return x if y.a[0] else FALSE
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('band', x, y)


def bor(x, y):
    if is_num(x):
        return TRUE if x.a[0] else y
    if is_num(y):
        return TRUE if y.a[0] else x
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('bor', x, y)


def mini(x, y):
    if x is y:
        return x
    if is_num(x) and is_num(y):
        return num(min(x.a[0], y.a[0]))
    d = rng(sub(x, y))
    if d.hi() is not None and d.hi() <= 0:
        return x
    if d.lo() is not None and d.lo() >= 0:
        return y
    args = set()
    for z in (x, y):
        args |= set(z.a) if z.op == 'min' else {z}
    return mk('min', *sorted(args, key=lambda k: k.id))


def maxi(x, y):
    if x is y:
        return x
    if is_num(x) and is_num(y):
        return num(max(x.a[0], y.a[0]))
    d = rng(sub(x, y))
    if d.hi() is not None and d.hi() <= 0:
        return y
    if d.lo() is not None and d.lo() >= 0:
        return x
    args = set()
    for z in (x, y):
        args |= set(z.a) if z.op == 'max' else {z}
    return mk('max', *sorted(args, key=lambda k: k.id))


# sequences ----------------------------------------------------------------
def byts(b):
    return mk('bytes', bytes(b))


NIL = byts(b'')


def agg(ty, var, *fs):
    return mk('agg', ty, var, tuple(fs))


def tup(*fs):
    return mk('agg', 'tuple', 0, tuple(fs))


UNIT = tup()


def seqlen(s):
    op = s.op
    if op == 'bytes':
        return num(len(s.a[0]))
    if op == 'arr':
        return num(len(s.a[0]))
    if op == 'rep':
        return s.a[1]
    if op == 'push':
        return add(seqlen(s.a[0]), num(1))
    if op == 'ext':
        return add(seqlen(s.a[0]), seqlen(s.a[1]))
    if op == 'slice':
        return sub(s.a[2], s.a[1])
    if op == 'be':
        return num(s.a[0] // 8)
    if op in ('set', 'splice'):
        return seqlen(s.a[0])
    if op == 'lower' or op == 'upper' or op == 'sorted':
        return seqlen(s.a[0])
    if op == 'collect':
        st = s.a[0]
        base, ops = st.a[0], st.a[1]
        if base.op == 'seqit' and all(o.a[0] in ('map', 'enumerate', 'rev') for o in ops):
            return seqlen(base.a[0])
    if op == 'hash':
        n = {'sha1': 20, 'sha256': 32, 'sha384': 48, 'sha512': 64}.get(s.a[0])
        if n:
            return num(n)
    if op == 'input' or op == 'resized':
        return s.a[1]
    if op == 'rev':
        return seqlen(s.a[0])
    if op == 'case':
        ls = [(d, seqlen(v)) for d, v in s.a[1]]
        if len({l for _, l in ls}) == 1:
            return ls[0][1]
    if op == 'ite':
        a, b = seqlen(s.a[1]), seqlen(s.a[2])
        if a is b:
            return a
        return mk('ite', s.a[0], a, b)
    return mk('len', s)


def ext(s, t, site=None):
    """s followed by t"""
    if t.op == 'bytes' and not t.a[0]:
        return s
    if s.op == 'bytes' and not s.a[0]:
        return t
    if t.op == 'bytes' and s.op == 'bytes':
        return byts(s.a[0] + t.a[0])
    if t.op == 'bytes' and s.op == 'ext' and s.a[1].op == 'bytes':
        return ext(s.a[0], byts(s.a[1].a[0] + t.a[0]))
    if t.op == 'ext':
        return ext(ext(s, t.a[0]), t.a[1])
    if t.op == 'arr' :
        r = s
        for x in t.a[0]:
            r = push(r, x)
        return r
    if t.op == 'slice':
        l = s.a[1] if s.op == 'ext' else s
        if l.op == 'slice' and l.a[0] is t.a[0] and l.a[2] is t.a[1]:
            m = slice_(t.a[0], l.a[1], t.a[2])
            return mk('ext', s.a[0], m) if s.op == 'ext' else m
    return mk('ext', s, t)


def push(s, x, site=None):
    """s followed by the single element x (site identifies the pushing call for containers of records)"""
    if site is not None:
        return mk('push', s, x, site)
    return ext(s, unit(x))


def unit(x):
    """one-byte sequence"""
    if is_num(x) and 0 <= x.a[0] < 256:
        return byts(bytes([x.a[0]]))
    return mk('be', 8, x)


def be(bits, x):
    if is_num(x):
        return byts((x.a[0] % (1 << bits)).to_bytes(bits // 8, 'big'))
    if x.op == 'frombe' and x.a[0] == bits:
        return x.a[1]
    return mk('be', bits, x)


def frombe(bits, s):
    if s.op == 'bytes':
        return num(int.from_bytes(s.a[0], 'big'))
    if s.op == 'be' and s.a[0] == bits:
        return s.a[1]
    return mk('frombe', bits, s)


def slice_(s, a, b):
    """s[a..b] (bounds already checked)"""
    L = seqlen(s)
    if is_num(a) and a.a[0] == 0 and b is L:
        return s
    if a is b:
        return NIL
    if s.op == 'slice':
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if is_num(a) and is_num(b):
        if s.op == 'bytes':
            return byts(s.a[0][a.a[0]:b.a[0]])
        if s.op == 'arr':
            return arr(s.a[0][a.a[0]:b.a[0]])
    if s.op == 'rep':
        return mk('rep', s.a[0], sub(b, a))
    if s.op == 'splice':
        # s = base with base[o..o+len(v)] replaced by v
        base, o, v = s.a
        if a is o and b is add(o, seqlen(v)):
            return v
        d = rng(sub(b, o))
        if d.hi() is not None and d.hi() <= 0:
            return slice_(base, a, b)
        d = rng(sub(a, add(o, seqlen(v))))
        if d.lo() is not None and d.lo() >= 0:
            return slice_(base, a, b)
    if s.op == 'ext':
        l0 = seqlen(s.a[0])
        if b is l0 or (rng(sub(b, l0)).hi() is not None and rng(sub(b, l0)).hi() <= 0):
            return slice_(s.a[0], a, b)
        if a is l0 and b is L:
            return s.a[1]
        d = rng(sub(a, l0))
        if d.lo() is not None and d.lo() >= 0:
            return slice_(s.a[1], sub(a, l0), sub(b, l0))
    return mk('slice', s, a, b)


def arr(items):
    items = tuple(items)
    if all(x.op == 'int' and 0 <= x.a[0] < 256 for x in items) and items:
        return mk('arr', items)
    return mk('arr', items)


def idx(s, i):
    """s[i] (bounds already checked)"""
    if s.op == 'slice':
        return idx(s.a[0], add(s.a[1], i))
    if s.op == 'rep':
        return s.a[0]
    if is_num(i):
        n = i.a[0]
        if s.op == 'bytes':
            return num(s.a[0][n])
        if s.op == 'arr':
            return s.a[0][n]
        if s.op == 'be' and s.a[0] == 8 and n == 0:
            return s.a[1]
    if s.op == 'set':
        if s.a[1] is i:
            return s.a[2]
        d = sub(s.a[1], i)
        if not rng(d).has(0):
            return idx(s.a[0], i)
    if s.op == 'splice':
        base, o, v = s.a
        if not (is_num(seqlen(v)) and seqlen(v).a[0] == 0):
            d = rng(sub(i, o))
            e = rng(sub(i, add(o, seqlen(v))))
            if d.hi() is not None and d.hi() < 0 or e.lo() is not None and e.lo() >= 0:
                return idx(base, i)
            if d.lo() is not None and d.lo() >= 0 and e.hi() is not None and e.hi() < 0:
                return idx(v, sub(i, o))
    if s.op == 'ext' or s.op == 'push':
        l0 = seqlen(s.a[0])
        d = rng(sub(i, l0))
        if d.hi() is not None and d.hi() < 0:
            return idx(s.a[0], i)
        if s.op == 'push' and i is l0:
            return s.a[1]
        if s.op == 'ext' and d.lo() is not None and d.lo() >= 0:
            return idx(s.a[1], sub(i, l0))
    return mk('idx', s, i)


def setidx(s, i, v):
    if s.op == 'rep' and is_num(s.a[1]) and s.a[1].a[0] <= 64:
        s = arr([s.a[0]] * s.a[1].a[0])
    if s.op == 'bytes' and is_num(i):
        s = arr([num(x) for x in s.a[0]])
    if s.op == 'arr' and is_num(i) and i.a[0] < len(s.a[0]):
        l = list(s.a[0])
        l[i.a[0]] = v
        return arr(l)
    if s.op == 'set' and s.a[1] is i:
        s = s.a[0]
    return mk('set', s, i, v)


def splice(s, a, v):
    """s with s[a..a+len(v)] replaced by v"""
    if is_num(seqlen(v)) and seqlen(v).a[0] == 0:
        return s
    if is_num(a) and a.a[0] == 0 and seqlen(s) is seqlen(v):
        return v
    if s.op == 'arr' and is_num(a) and is_num(seqlen(v)):
        l = list(s.a[0])
        n = seqlen(v).a[0]
        for k in range(n):
            l[a.a[0] + k] = idx(v, num(k))
        return arr(l)
    if v.op in ('splice', 'set') and v.a[0] is slice_(s, a, add(a, seqlen(v))):
        # a part of s changed in turn
        return (splice if v.op == 'splice' else setidx)(s, add(a, v.a[1]), v.a[2])
    if s.op == 'splice' and s.a[1] is a and seqlen(s.a[2]) is seqlen(v):
        s = s.a[0]
    return mk('splice', s, a, v)


def lower(s):
    if s.op == 'bytes':
        return byts(s.a[0].lower())
    if s.op in ('lower',):
        return s
    return mk('lower', s)


def upper(s):
    if s.op == 'bytes':
        return byts(s.a[0].upper())
    if s.op == 'upper':
        return s
    return mk('upper', s)


NAMEF = ('name', 'key_name', 'next_name', 'canonical_name', 'delegation_name', 'name_server')


def _isname(t):
    """A domain name value (equal exactly when its only field, the text, is)."""
    return t.op == 'rrname' or (t.op == 'fld' and t.a[1] in NAMEF)


def eq(x, y):
    """generic (structural) equality of non-integers"""
    if x is y:
        return TRUE
    if _isname(x) and _isname(y):
        x, y = mk('fld', x, '0'), mk('fld', y, '0')
    if x.op == 'arr' and all(z.op == 'int' for z in x.a[0]):
        x = byts(bytes(z.a[0] for z in x.a[0])) if all(0 <= z.a[0] < 256 for z in x.a[0]) else x
    if y.op == 'arr' and all(z.op == 'int' for z in y.a[0]):
        y = byts(bytes(z.a[0] for z in y.a[0])) if all(0 <= z.a[0] < 256 for z in y.a[0]) else y
    if x is y:
        return TRUE
    if x.op == 'bytes' and y.op == 'bytes':
        return num(x.a[0] == y.a[0])
    if x.op == 'rep' and x.a[0].op == 'int' and is_num(x.a[1]) and y.op == 'bytes':
        return num(bytes([x.a[0].a[0]]) * x.a[1].a[0] == y.a[0])
    if y.op == 'rep' and x.op == 'bytes':
        return eq(y, x)
    for u, v in ((x, y), (y, x)):
        if u.op == 'bytes' and not u.a[0]:
            return eqi(seqlen(v), num(0))
        if u.op == 'bytes':
            if v.op == 'be' and v.a[0] == 8 * len(u.a[0]):
                return eqi(v.a[1], num(int.from_bytes(u.a[0], 'big')))
            lv = seqlen(v)
            if is_num(lv) and lv.a[0] != len(u.a[0]):
                return FALSE
    if x.op == 'be' and y.op == 'be' and x.a[0] == y.a[0]:
        return eqi(x.a[1], y.a[1])
    if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return FALSE
        if not x.a[2] and not y.a[2]:
            return TRUE
    if x.id > y.id:
        x, y = y, x
    return mk('eq', x, y)


_REB = {
    'int': lambda v: num(v), 'lin': _relin, 'mul': mul, 'wrap': wrap, 'mod': lambda t, c: mod(t, c.a[0]) if is_num(c) else mk('mod', t, c),
    'div': lambda t, c: div(t, c.a[0]) if is_num(c) else mk('div', t, c), 'and': bitand, 'or': bitor, 'xor': bitxor, 'shl': shl, 'shr': shr,
    'not': notb, 'in': lambda t, s: inset(t, s), 'le0': le0, 'eq0': lambda t: eqi(t, num(0)), 'eq': eq,
    'ext': ext, 'be': be, 'frombe': frombe, 'slice': slice_, 'idx': idx, 'set': setidx, 'splice': splice,
    'lower': lower, 'upper': upper, 'push': lambda s, x, *r: mk('push', s, x, *r), 'band': band, 'bor': bor, 'len': seqlen,
    'min': lambda *a: __import__('functools').reduce(mini, a), 'max': lambda *a: __import__('functools').reduce(maxi, a),
}


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        if isinstance(t, frozenset):
            return '{' + ','.join(sorted(show(x, d + 1) for x in t)) + '}'
        return str(t)
    if d > 14:
        return '..'
    o, a = t.op, t.a
    if o == 'int':
        return str(a[0])
    if o == 'bytes':
        return 'b' + repr(a[0].decode('latin1'))
    if o == 'lin':
        return '(' + '+'.join(([str(a[0])] if a[0] else []) + [('%d*' % v if v != 1 else '') + show(k, d + 1) for k, v in a[1]]) + ')'
    if o == 'param':
        return str(a[0])
    if o == 'fld':
        return show(a[0], d + 1) + '.' + str(a[1])
    if o == 'agg':
        return '%s#%s{%s}' % (a[0], a[1], ', '.join(show(x, d + 1) for x in a[2]))
    if o == 'ext':
        return show(a[0], d + 1) + ' ++ ' + show(a[1], d + 1)
    if o == 'phi':
        return 'PHI%d' % t.id
    if o == 'elem':
        return 'e%d<%s>' % (t.id, show(a[0], d + 4))
    if o == 'in':
        return '%s in %r' % (show(a[0], d + 1), a[1])
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'
