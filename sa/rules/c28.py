"""Query buffers behave as byte strings and never panic.

The effect of every operation of the buffer on its fields is derived as a piecewise closed form in the lengths.  The
forms are composed (creation, then appends, then each view) and tabulated at every combination of lengths on and next
to the constants their cases distinguish: the views have to be the byte string that was put in, and no assertion of the
bodies may be false where it is reached.
"""
RULE = 'composed closed forms of creation, append and views tabulated at the corners of their cases; assertions of the bodies'
from points import *

SKIP = ('QueryBuf::new_zeroed', 'QueryBuf::extend_from_slice', 'QueryBuf::into_vec', 'QueryBuf as Deref::deref', 'QueryBuf as DerefMut::deref_mut', 'QueryBuf as Clone::clone', 'QueryBuf as Writer::write')
MAX = 65535


class Panics(Exception):
    pass


class Open(Exception):
    pass


class Op:
    """One operation, evaluated from its derived summary."""

    def __init__(self, ctx, rep, P, f, qt):
        self.P, self.f, self.qt = P, f, qt
        self.last = None
        self.name = f['path'].split('::')[-1]
        self.r = ctx.run(f, skip=SKIP)
        r = self.r
        self.ok = r.ok and not r.unmod()
        if not self.ok:
            rep.unknown('op:' + self.name, r.why or 'unmodelled %s' % sorted(r.unmod())[:3], f['span'])
            return
        self.pt = Points(r)
        self.pt.ops.update({'fld': self.fld, 'agg': self.agg, 'ref': self.ref, 'deref': lambda go, x: go(x.a[0])})
        self.fields = [x[0] for x in P.adt[qt]['v'][0]['f']]

    def fld(self, go, x):
        v = go(x.a[0])
        k = x.a[1]
        if isinstance(v, dict) and k in v:
            return v[k]
        raise NoVal('fld')

    def agg(self, go, x):
        if x.a[0] == self.qt and len(x.a[2]) == len(self.fields):
            return {k: go(y) for k, y in zip(self.fields, x.a[2])}
        raise NoVal('agg')

    def ref(self, go, x):
        v = next((go(self.r.arg(i)) for i in range(self.f['body']['argc']) if show(x.a[0]) == '(in,p%d)' % i), None)
        if v is None:
            raise NoVal('ref')
        self.last = []
        for e in x.a[1]:
            if isinstance(e, tuple) and e[0] == 'f' and isinstance(v, dict):
                v = v[self.fields[e[1]]]
                self.last.append(self.fields[e[1]])
            elif isinstance(e, tuple) and e[0] == 'S':
                lo, hi = go(e[1]), go(e[2])
                if not 0 <= lo <= hi <= len(v):
                    raise NoVal('ref')
                v = v[lo:hi]
                self.last.append((lo, hi))
            else:
                raise NoVal('ref')
        return v

    def __call__(self, *args):
        """(result, state left behind parameter 0)."""
        r, env = self.r, {self.r.arg(i): a for i, a in enumerate(args)}
        opened = False
        for e in r.evs:
            if e.kind not in ('assert', 'panic'):
                continue
            f = self.pt.at(e.facts, env)
            if f is False:
                continue
            try:
                c = self.pt.value(e.args[0], env) if e.kind == 'assert' and e.args else 0
            except NoVal:
                if f is True:
                    opened = True
                continue
            if c == 0:
                if f is True:
                    raise Panics('%s: %s at %s' % (self.name, e.name, e.span))
                opened = True
        for st, v in r.rets:
            f = self.pt.at(st.facts, env)
            if f is None:
                raise Open('%s: condition not in closed form' % self.name)
            if f:
                if opened:
                    raise Open('%s: assertion not in closed form' % self.name)
                o = r.out(st, 0)
                try:
                    return (None if v is UNIT else self.pt.value(v, env)), (self.pt.value(o, env) if o is not None else None)
                except NoVal as e:
                    raise Open('%s: %s' % (self.name, show(v if v is not UNIT else o)[:120]))
        raise Open('%s: no case applies' % self.name)


def check(ctx, rep):
    P = ctx.prog()
    qt = adt_path(P, 'query::QueryBuf')
    if qt is None:
        return rep.bad('anchor:QueryBuf', 'buffer type not found')
    rep.judge('private', not any(x[2] for v in P.adt[qt]['v'] for x in v['f']), 'the fields of a buffer are private')
    ops, eqs = {}, None
    for f in P.fns:
        if 'body' in f and f.get('local') and not f.get('shim') and '{closure' not in f['path'] and 'query::QueryBuf' in f['path']:
            if f['name'] == 'eq' and f.get('trait') == 'std::cmp::PartialEq::eq':
                eqs = Op(ctx, rep, P, f, qt)
                continue
            if f['name'] in ('assert_receiver_is_total_eq', 'assert_fields_are_eq', 'ne', 'fmt', 'drop'):
                continue
            if f.get('pub') or f.get('trait'):
                ops[f['path'].split('::')[-1]] = Op(ctx, rep, P, f, qt)
    want = ('new_zeroed', 'extend_from_slice', 'deref', 'deref_mut', 'into_vec', 'clone', 'write')
    for k in want:
        if k not in ops:
            (rep.bad if k not in ('write', 'clone') else rep.unknown)('anchor:' + k, 'no operation %s' % k)
    for k in ops:
        if k not in want:
            rep.unknown('op:' + k, 'operation %s is not one of those examined' % k, ops[k].f['span'])
    if any(k not in ops or not ops[k].ok for k in want[:4]):
        return
    cs = {0, 1, MAX}
    for o in ops.values():
        if o.ok:
            cs |= constants(o)
    cs = {c for c in cs if 0 <= c <= MAX}
    if len(cs) > 24:
        cs = set(sorted(cs)[:24])
    grid = sorted({x for c in cs for x in (c - 1, c, c + 1, 2 * c) if 0 <= x <= MAX + 1})
    n = [0]
    try:
        table(rep, ops, grid, n)
    except Panics as e:
        rep.bad('panic', str(e))
    except Open as e:
        rep.unknown('table', str(e))
    else:
        rep.good('table', '%d combinations of lengths around %s' % (n[0], sorted(cs)))
    if eqs is None or not eqs.ok:
        return rep.unknown('equal', 'comparison of buffers not seen')
    try:
        rep.good('equal', '%d pairs of buffers' % equal(rep, ops, eqs, [x for x in grid if x <= MAX]))
    except Panics as e:
        rep.bad('panic', str(e))
    except Open as e:
        rep.unknown('equal', str(e))


def constants(o):
    out = set()

    def see(t):
        for y in subterms(t):
            if y.op == 'int' and isinstance(y.a[0], int):
                out.add(y.a[0])
            if y.op in ('min', 'max', 'rep'):
                out.update(z.a[0] for z in y.a if z.op == 'int')
    for st, v in o.r.rets:
        see(v)
        for c in st.facts:
            for t, s in c.d.items():
                if t.op in ('fld', 'param', 'len', 'min', 'max'):
                    for lo, hi in getattr(s, 'r', None) or getattr(s, 'iv', None) or ():
                        out.update(x for x in (lo, hi) if x is not None)
                see(t)
    return out


def data(k, seed):
    base = bytes((seed * 37 + i * 11 + (i >> 8)) & 255 | 1 for i in range(512))
    return (base * (k // 512 + 1))[:k]


def table(rep, ops, grid, n):
    new, ext = ops['new_zeroed'], ops['extend_from_slice']
    few = [x for x in grid if x <= MAX]
    for a in few:
        s, _ = new(a)
        look(rep, ops, s, bytes(a), 'after creation with length %d' % a)
        n[0] += 1
        for b in grid + [70000, 131072 + 3]:
            d = data(b, 1)
            w = (bytes(a) + d)[:MAX]
            for k in ('extend_from_slice', 'write'):
                if k in ops and ops[k].ok:
                    s1 = ops[k](s, d)[1]
                    look(rep, ops, s1, w if a + b <= MAX else None, 'after creation with length %d and %s of %d bytes' % (a, 'an append' if k[0] == 'e' else 'a write', b))
                    n[0] += 1
            if a not in (0, few[len(few) // 2]) and a + b <= MAX and b not in (1,):
                continue
            s1 = ext(s, d)[1]
            for c in grid + [70000]:
                e = data(c, 2)
                s2 = ext(s1, e)[1]
                look(rep, ops, s2, bytes(a) + d + e if a + b + c <= MAX else None, 'after creation with length %d and appends of %d and %d bytes' % (a, b, c))
                n[0] += 1


def equal(rep, ops, eqs, grid):
    """Buffers are equal exactly if their bytes are."""
    new, ext = ops['new_zeroed'], ops['extend_from_slice']
    empty, n = new(0)[0], 0
    for a in grid:
        for b in grid:
            if not 0 < a + b <= MAX:
                continue
            d = data(a, 1) + data(b, 2)
            s = ext(ext(empty, d[:a])[1], d[a:])[1]
            last = d[:-1] + bytes([d[-1] ^ 1])
            first = bytes([d[0] ^ 1]) + d[1:]
            for other, same in ((ext(empty, d)[1], 1), (s, 1), (ext(ext(empty, last[:a])[1], last[a:])[1], 0), (ext(empty, first)[1], 0), (ext(empty, d[:-1])[1], 0)):
                n += 1
                for x, y in ((s, other), (other, s)):
                    v = eqs(x, y)[0]
                    if v is True or v is False:
                        v = int(v)
                    if v not in (0, 1):
                        raise Open('eq: no truth value')
                    if v != same:
                        rep.bad('equal', 'buffers of %d bytes (appended as %d and %d, and at once) that hold %s bytes compare as %s' % (len(d), a, b, 'the same' if same else 'different', 'equal' if v else 'different'), eqs.f['span'])
                        return n
    return n


def look(rep, ops, s, want, when):
    """Every view of a state."""
    if want is None:
        # beyond 65535 bytes only that nothing panics (now or later) and that the views agree is asked for
        want = ops['deref'](s)[0]
    seen = {'deref': ops['deref'](s)[0], 'deref_mut': ops['deref_mut'](s)[0]}
    m = ops['deref_mut']
    if m.last and isinstance(m.last[0], str) and len(m.last) <= 2:
        new = data(len(want), 5)
        t = dict(m(s)[1] or s)
        old = t[m.last[0]]
        lo, hi = m.last[1] if len(m.last) == 2 else (0, len(old))
        if hi - lo == len(new):
            t[m.last[0]] = old[:lo] + new + old[hi:]
            got = ops['deref'](t)[0]
            if got != new:
                rep.bad('view:written', '%s: bytes written through the mutable view are not read back' % when, m.f['span'])
            else:
                rep.good('view:written', 'what is written through the mutable view is read back')
    if 'into_vec' in ops and ops['into_vec'].ok:
        seen['into_vec'] = ops['into_vec'](s)[0]
    if 'clone' in ops and ops['clone'].ok:
        seen['clone'] = ops['deref'](ops['clone'](s)[0])[0]
    for k, v in seen.items():
        if not isinstance(v, (bytes, bytearray)):
            raise Open('%s: not bytes' % k)
        if v != want:
            i = next((i for i in range(min(len(v), len(want))) if v[i] != want[i]), None)
            rep.bad('view:' + k, '%s: %s' % (when, '%d bytes are read back instead of %d' % (len(v), len(want)) if len(v) != len(want) else 'byte %d is read back as %d, not %d' % (i, v[i], want[i])), ops[k].f['span'])
        else:
            rep.good('view:' + k, 'reads back what was put in')
