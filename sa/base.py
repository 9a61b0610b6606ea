"""Shared context of all rules: loaded programs, memoised analyses, obligations and their outcome."""
import os, signal, sys, time
import dump
import engine
from engine import Prog, Interp, shortkey, Limit
import cuts as CUTS
from terms import *
import facts as F

BUDGET = 120          # seconds for one function analysis


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Run:
    """The summary of one analysed function."""

    def __init__(self, ctx, P, f, I, rets, evs, secs, why=None):
        self.ctx, self.P, self.f, self.I, self.rets, self.evs, self.secs, self.why = ctx, P, f, I, rets, evs, secs, why

    @property
    def ok(self):
        return self.why is None

    def unmod(self):
        return dict(self.I.unmodelled) if self.I else {}

    def phi(self, t):
        return self.I.phis.get(t)

    def p(self, i):
        """Value of parameter i as the analysis names it."""
        return self.I.pvals[i]

    def arg(self, i):
        """Initial value of parameter i, or of what it refers to."""
        v = self.I.pvals[i]
        return mk('param', 'p%d' % i) if v.op == 'ref' else v

    def out(self, st, i):
        """Final content of the i-th parameter (a mutable reference)."""
        return st.store.get(('in', 'p%d' % i))

    def imprecise(self, t, seen=None):
        """An unknown the term depends on, looking through loop values; None when it is fully known."""
        seen = set() if seen is None else seen
        for x in subterms(t):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ('unk', 'uninit', 'unmod', 'havoc', 'opq'):
                return x
            inc = self.I.phis.get(x)
            if inc is not None:
                for v, _ in inc:
                    r = self.imprecise(v, seen)
                    if r is not None:
                        return r
        return None


class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self._p = {}
        self._r = {}
        self.analysed = set()
        self.runs = 0

    def prog(self, cfg='lib'):
        if cfg not in self._p:
            j, path = dump.dump(cfg)
            self._p[cfg] = Prog(j)
        return self._p[cfg]

    def fns(self, key, cfg='lib'):
        """Local functions with a body whose short key is `key` (all instances of a generic one)."""
        P = self.prog(cfg)
        return [f for f in P.fns if f.get('local') and 'body' in f and shortkey(f['path']) == key and not f.get('shim')]

    def run(self, f, cfg='lib', skip=None, cut=None, args=None, tag=None, budget=None, facts=None, prep=None, extra=None):
        """Analyse function record f.  skip: contract names to leave out (its own is always left out)."""
        P = self.prog(cfg)
        sk = shortkey(f['path'])
        key = (cfg, f['id'], tuple(sorted(skip or ())), tuple(sorted(cut)) if cut is not None else None, tag, tuple(sorted(extra or ())))
        if key in self._r:
            return self._r[key]
        cs = CUTS.cuts(sk, *(skip or ())) if cut is None else CUTS.only(*[c for c in cut if c != sk])
        if extra:
            cs = {**cs, **extra}
        I = Interp(P, cs)
        t0 = time.time()
        why = None
        rets, evs = [], []
        lost = F.LOSSY[0]
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(budget or BUDGET)
        try:
            kw = {}
            if facts is not None:
                kw['facts'] = facts
            if prep is not None:
                args, kw['extra_store'] = prep(I)
            rets, evs = I.run_root(f['id'], args, **kw)
        except Timeout:
            why = 'time limit'
        except Limit as e:
            why = 'limit: %s' % e
        except RecursionError:
            why = 'depth'
        except (AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            why = 'analyser: %s %s' % (type(e).__name__, str(e)[:80])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        I.lossy += F.LOSSY[0] - lost
        self.runs += 1
        self.analysed.add(cfg + ':' + f['full'])
        for g in getattr(I, 'fns_analysed', ()):
            self.analysed.add(cfg + ':' + (g if isinstance(g, str) else P.fns[g]['full']))
        r = Run(self, P, f, I, rets, evs, time.time() - t0, why)
        self._r[key] = r
        return r

    def run1(self, key, cfg='lib', **kw):
        fs = self.fns(key, cfg)
        return self.run(fs[0], cfg, **kw) if fs else None


class Rep:
    """Outcome of one property's obligations."""

    def __init__(self, pid, ctx):
        self.pid, self.ctx = pid, ctx
        self.items = []          # (status, key, detail, where)
        self.seen = {}

    def _add(self, s, key, detail, where):
        k = (s, key, detail)
        if k in self.seen:
            return
        self.seen[k] = 1
        self.items.append((s, key, detail, where))

    def good(self, key, detail='', where=''):
        self._add('ok', key, detail, where)

    def bad(self, key, detail, where=''):
        self._add('bad', key, detail, where)

    def unknown(self, key, detail, where=''):
        self._add('unknown', key, detail, where)

    def judge(self, key, cond, detail='', where=''):
        """cond: True holds, False broken, None undecided."""
        (self.good if cond else self.unknown if cond is None else self.bad)(key, detail, where)
        return cond

    def floor(self, what, got, want, hard=True):
        """Fail closed when fewer instances were found than the code base is known to have (soft: undecided, for
        instances that an equivalent rewrite may express in another form)."""
        if got < want:
            hard = hard and not any(i[0] == 'unknown' for i in self.items)
            (self.bad if hard else self.unknown)('floor:' + what, 'found %d of at least %d %s' % (got, want, what))
        else:
            self.good('floor:' + what, '%d %s' % (got, what))

    def need(self, key, cfg='lib', n=1):
        fs = self.ctx.fns(key, cfg)
        if len(fs) < n:
            self.bad('anchor:' + key, 'function %s not found in %s' % (key, cfg))
        return fs


# ---------------------------------------------------------------- term helpers
def field_index(P, adt, name, variant=None):
    p = next((q for q in P.adt if q == adt or q.endswith('::' + adt)), None)
    if p is None:
        return None
    vs = P.adt[p]['v']
    v = vs[0] if variant is None else next((x for x in vs if x['n'] == variant), None)
    if v is None:
        return None
    for i, fl in enumerate(v['f']):
        if fl[0] == name:
            return i
    return None


def is_ok(v):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('result::Result') and v.a[1] == 0


def is_err(v):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('result::Result') and v.a[1] == 1


def is_some(v):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('option::Option') and v.a[1] == 1


def is_none(v):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('option::Option') and v.a[1] == 0


def pay(v, i=0):
    return v.a[2][i]


def flat(s):
    """A byte sequence as a list of concatenated parts."""
    if s.op == 'cat':
        out = []
        for x in s.a[0]:
            out.extend(flat(x))
        return out
    if s.op == 'ext':
        return flat(s.a[0]) + flat(s.a[1])
    return [s]


def holds(facts, t):
    """Boolean term t decided by DNF facts: True/False/None."""
    v = set()
    for c in facts:
        s = F.cset(c, t)
        for k in (0, 1):
            if s.has(k):
                v.add(k)
    return True if v == {1} else False if v == {0} else None


def le_implied(c, a, b):
    """Whether conjunction c forces a <= b (linear reasoning over its facts)."""
    t = le0(sub(a, b))
    if is_num(t):
        return t.a[0] == 1
    return F.cset(c, t).single() == 1 or F.conj_unsat(c, [add(sub(b, a), num(1))])


def vset(facts, t):
    """Over-approximation of integer term t under DNF facts."""
    r = EMPTY
    for c in facts:
        r = iunion(r, F.cset(c, t))
    return r


# ---------------------------------------------------------------- closed forms at a point
class NoVal(Exception):
    pass


class NoSlice(NoVal):
    """Part of a text that it does not have."""


def intfn(m, bits, a, b=0):
    """Bit functions of unsigned numbers."""
    hi = (1 << bits) - 1
    if not 0 <= a <= hi:
        raise NoVal('intfn')
    if m in ('rotate_left', 'rotate_right'):
        k = b % bits if m == 'rotate_left' else -b % bits
        return (a << k | a >> (bits - k)) & hi
    if m == 'leading_zeros':
        return bits - a.bit_length()
    if m == 'trailing_zeros':
        return (a & -a).bit_length() - 1 if a else bits
    if m == 'count_ones':
        return bin(a).count('1')
    if m == 'reverse_bits':
        return int(bin(a)[2:].zfill(bits)[::-1], 2)
    if m in ('swap_bytes', 'to_be', 'from_be'):
        return int.from_bytes(a.to_bytes(bits // 8, 'big'), 'little')
    raise NoVal('intfn')


def evalt(t, env, ops=None):
    """Value of a closed-form term (int, bool as 0/1, or bytes) with its atoms fixed by env; NoVal if it has others."""
    memo = {}

    def go(x):
        if x in env:
            return env[x]
        if x in memo:
            return memo[x]
        memo[x] = v = go1(x)
        return v

    def go1(x):
        o, a = x.op, x.a
        if o == 'int':
            return a[0]
        if o == 'bytes':
            return a[0]
        if o == 'lin':
            return a[0] + sum(go(k) * c for k, c in a[1])
        if o == 'mul':
            return go(a[0]) * go(a[1])
        if o == 'wrap':
            return go(a[1]) % (1 << a[0])
        if o == 'swrap':
            v = go(a[1]) % (1 << a[0])
            return v - (1 << a[0]) if v >> (a[0] - 1) else v
        if o == 'mod':
            return go(a[0]) % (a[1] if isinstance(a[1], int) else go(a[1]))
        if o == 'div':
            return go(a[0]) // (a[1] if isinstance(a[1], int) else go(a[1]))
        if o == 'and':
            return go(a[0]) & go(a[1])
        if o == 'or':
            return go(a[0]) | go(a[1])
        if o == 'xor':
            return go(a[0]) ^ go(a[1])
        if o == 'intfn':
            return intfn(a[0], a[1], *[go(y) for y in a[2:]])
        if o == 'in':
            return int(a[1].has(go(a[0])))
        if o == 'le0':
            return int(go(a[0]) <= 0)
        if o == 'eq0':
            return int(go(a[0]) == 0)
        if o == 'not':
            return 1 - go(a[0])
        if o == 'band':
            return int(bool(go(a[0])) and bool(go(a[1])))
        if o == 'bor':
            return int(bool(go(a[0])) or bool(go(a[1])))
        if o == 'bxor':
            return go(a[0]) ^ go(a[1])
        if o == 'ite':
            return go(a[1]) if go(a[0]) else go(a[2])
        if o == 'case':
            v = go(a[0])
            for s, y in a[1]:
                if (s.has(v) if isinstance(s, ISet) else v in s):
                    return go(y)
            raise NoVal()
        if o == 'min':
            return min(go(a[0]), go(a[1]))
        if o == 'max':
            return max(go(a[0]), go(a[1]))
        if o == 'len':
            v = go(a[0])
            return len(v)
        if o == 'idx':
            s, i = go(a[0]), go(a[1])
            if not 0 <= i < len(s):
                raise NoVal()
            return s[i]
        if o == 'slice':
            s, i, k = go(a[0]), go(a[1]), go(a[2])
            if not 0 <= i <= k <= len(s):
                raise NoSlice()
            return s[i:k]
        if o == 'be':
            return (go(a[1]) % (1 << a[0])).to_bytes(a[0] // 8, 'big')
        if o == 'frombe':
            return int.from_bytes(go(a[1]), 'big')
        if o == 'ext':
            return go(a[0]) + go(a[1])
        if o == 'arr':
            return [go(y) for y in a[0]]
        if o == 'lower':
            return go(a[0]).lower()
        if o == 'eq':
            return int(go(a[0]) == go(a[1]))
        if o == 'set':
            s = list(go(a[0]))
            s[go(a[1])] = go(a[2])
            return bytes(s) if all(isinstance(z, int) and 0 <= z < 256 for z in s) else s
        if o == 'rep':
            n = go(a[1])
            if n > 1 << 16:
                raise NoVal()
            return bytes([go(a[0])]) * n
        if o == 'shl':
            k = go(a[1])
            if not 0 <= k < a[2]:
                raise NoVal()
            return (go(a[0]) << k) & ((1 << a[2]) - 1)
        if o == 'shr':
            return go(a[0]) >> go(a[1])
        if o == 'dec':
            return str(go(a[0])).encode()
        if o == 'cat':
            return b''.join(go(y) for y in a[0])
        if o == 'splice':
            s, k, x = go(a[0]), go(a[1]), go(a[2])
            if k + len(x) > len(s):
                raise NoVal()
            return s[:k] + x + s[k + len(x):]
        if ops and o in ops:
            return ops[o](go, x)
        raise NoVal(o)
    return go(t)


def facts_at(facts, env, ops=None):
    """Whether DNF facts hold at the point env: True/False, None if they mention other things."""
    res = False
    for c in facts:
        v = True
        for t, s in c.d.items():
            try:
                if not s.has(evalt(t, env, ops)):
                    v = False
                    break
            except NoVal:
                if v is True:
                    v = None
        if v is True:
            return True
        if v is None:
            res = None
    return res


def tyname(P, i):
    t = P.types[i]
    return t.get('n', '')


def sig(P, f):
    b = f['body']
    return [tyname(P, b['locals'][i + 1]) for i in range(b['argc'])], tyname(P, b['locals'][0])


def by_sig(ctx, args, ret, cfg='lib', module=None):
    P = ctx.prog(cfg)
    out = []
    for f in P.fns:
        if f.get('local') and 'body' in f and not f.get('shim') and '{closure' not in f['full']:
            if module and module not in f['path']:
                continue
            if sig(P, f) == (args, ret):
                out.append(f)
    return out


def find(ctx, rep, key, args=None, ret=None, cfg='lib', module=None):
    """A private function by name, else the only one of its module with its signature."""
    fs = ctx.fns(key, cfg)
    if fs:
        return fs[0]
    if args is not None:
        fs = by_sig(ctx, args, ret, cfg, module)
        if len(fs) == 1:
            return fs[0]
    rep.unknown('anchor:' + key, 'no function recognisable as %s' % key)
    return None


# ---------------------------------------------------------------- growing sequences
def past_error(t):
    """t is what is left to read after a read that failed."""
    return any(x.op == 'unk' and str(x.a[0]).startswith('after_') and str(x.a[0]).endswith('_error') for x in subterms(t))


def arms(x, fs=None):
    """The values x can have, with the facts under which it has them."""
    if x.op != 'ite':
        return [(x, fs)]
    out = []
    for b, y in (iset(1), x.a[1]), (iset(0), x.a[2]):
        f = None if fs is None else [c2 for c in fs for c2 in F.assume(c, x.a[0], b) or ()]
        if f is None or f:
            out += arms(y, f)
    return out


def growth(r, t, facts=None):
    """How sequence t can have been built: (bases, additions), additions being (kind, item, facts) with kind
    'ext' (a run of items) or 'push' (one item).  Follows loop values to all their sources."""
    bases, adds, seen = [], [], set()

    def go(x, fs):
        if x.op == 'ext':
            y, fs0 = x.a[1], fs
            if any(z.op == 'ite' for z in flat(y)):
                for z in flat(y):
                    for q, fs in arms(z, fs0):
                        if q in r.I.phis:
                            b2, a2 = growth(r, q, fs)
                            adds.extend(a2)
                            adds.extend(('ext', b, fs) for b in b2 if b is not NIL)
                        elif q is not NIL:
                            adds.append(('ext', q, fs))
            elif any(z in r.I.phis for z in flat(y)):
                for z in flat(y):
                    if z in r.I.phis:
                        b2, a2 = growth(r, z, fs)
                        adds.extend(a2)
                        adds.extend(('ext', q, fs) for q in b2 if q is not NIL)
                    else:
                        adds.append(('ext', z, fs))
            else:
                adds.append(('ext', y, fs))
            return go(x.a[0], fs0)
        if x.op == 'push':
            adds.append(('push', x.a[1], fs))
            return go(x.a[0], fs)
        if x.op == 'ite':
            go(x.a[1], fs)
            return go(x.a[2], fs)
        inc = r.I.phis.get(x)
        if inc is not None:
            if x.id in seen:
                return
            seen.add(x.id)
            for v, f in inc:
                go(v, f)
            return
        if x not in bases:
            bases.append(x)
    go(t, facts)
    return bases, adds


def parts(s):
    """Concatenated parts of a byte string, adjacent constant bytes merged."""
    out = []
    for x in flat(s):
        if x.op == 'bytes' and out and out[-1].op == 'bytes':
            out[-1] = byts(out[-1].a[0] + x.a[0])
        elif x is not NIL:
            out.append(x)
    return out


def elems(t):
    """The listed elements of a sequence built from literals, or None."""
    if t is NIL or (t.op == 'arr' and not t.a[0]):
        return []
    if t.op == 'arr':
        return list(t.a[0])
    if t.op == 'unit':
        return [t.a[0]]
    if t.op in ('ext', 'push'):
        a = elems(t.a[0])
        b = [t.a[1]] if t.op == 'push' else elems(t.a[1])
        return None if a is None or b is None else a + b
    if t.op == 'removed' and is_num(t.a[1]):
        a, i = elems(t.a[0]), t.a[1].a[0]
        if a is None or not 0 <= i < len(a):
            return None
        if t.a[2] == 'swap_remove':
            return a[:i] + (a[-1:] + a[i + 1:-1] if i < len(a) - 1 else [])
        return a[:i] + a[i + 1:] if t.a[2] == 'remove' else None
    return None


def getf(P, v, adt, name):
    """Field `name` of an aggregate or opaque value of struct type adt."""
    if v.op == 'agg':
        i = field_index(P, adt, name)
        return None if i is None or i >= len(v.a[2]) else v.a[2][i]
    return mk('fld', v, name)


def nametext(v):
    """Text of a Name value."""
    if v.op == 'agg' and v.a[0].endswith('rr::Name'):
        return v.a[2][0]
    return mk('fld', v, '0')


# ---------------------------------------------------------------- record types
RRTYPES = {  # variant -> (IANA number, mnemonic)
    'A': (1, 'A'), 'AAAA': (28, 'AAAA'), 'NS': (2, 'NS'), 'Txt': (16, 'TXT'), 'TLSA': (52, 'TLSA'), 'CName': (5, 'CNAME'),
    'DName': (39, 'DNAME'), 'DnsKey': (48, 'DNSKEY'), 'DS': (43, 'DS'), 'RRSig': (46, 'RRSIG'), 'NSec': (47, 'NSEC'), 'NSec3': (50, 'NSEC3'),
}
BYNUM = {n: (v, m) for v, (n, m) in RRTYPES.items()}


def adt_path(P, suffix):
    return next((p for p in P.adt if p.endswith('::' + suffix) or p == suffix), None)


def run_variant(ctx, f, d, cfg='lib', **kw):
    """Analyse f with its first parameter known to be variant d."""
    x = mk('param', 'p0')
    fs = F.dnf_assume(F.TOP, mk('discr', x), iset(d))
    return ctx.run(f, cfg, facts=fs, tag=('variant', d), **kw)


def leading(r, t, seen=None):
    """The set of terms a sequence can start with."""
    seen = set() if seen is None else seen
    if t.op == 'ext':
        xs = leading(r, t.a[0], seen)
        return xs | (leading(r, t.a[1], seen) if NIL in xs else set())
    if t.op == 'ite':
        return leading(r, t.a[1], seen) | leading(r, t.a[2], seen)
    inc = r.I.phis.get(t)
    if inc is not None:
        if t.id in seen:
            return set()
        seen.add(t.id)
        out = set()
        for v, _ in inc:
            out |= leading(r, v, seen)
        return out
    return {t}


def self_is(P, f, path):
    """Whether the first parameter is (a reference to) the ADT."""
    b = f['body']
    return b['argc'] >= 1 and P.types[P.deref_ty(b['locals'][1])].get('p') == path
