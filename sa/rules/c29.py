"""Each entry point asks for and serves the record type it names.

Every proof building entry point is analysed with the proof builder abstracted to an opaque state (its own rules are
C23-C27) and the connection to a log of effects.  The log is an automaton over the loop heads; it is walked against the
driving protocol: connect to the resolver given, create the builder for the name given and the type of the entry point's
name, send the first query framed with its length, then per response: read two bytes and as many as they say, feed
exactly those bytes, send every query handed out, framed, and finish only when no response is awaited, handing out the
builder's proof and TTL; a failure of any step ends the run with an error.  The HTTP handler's dispatch is read off the
conditions under which each builder is called.
"""
RULE = 'effect log of the entry points walked against the driving protocol; conditions and arguments of the HTTP dispatch'
import names
from points import Points
from trace import *

LIMIT = 10          # queries the proof builder makes at most (C26)
TYPES = {'a': 1, 'aaaa': 28, 'txt': 16, 'tlsa': 52}


class Bad(Exception):
    pass


class Open(Exception):
    pass


class Walk:
    """The protocol over the log automaton of one run."""

    def __init__(self, r):
        self.r = r
        self.modes = {}
        self.steps = 0

    def settle(self, m):
        """What was written so far, judged where the next effect needs it complete."""
        k = m[0]
        if k == 'first':
            if not is_frame(m[2], m[1]):
                raise self.wrong('the first query goes out as %s' % show(m[2])[:200], m[2])
            return ('ready',)
        if k == 'send' and m[2] is not NIL:
            raise self.wrong('bytes sent that are no query handed out: %s' % show(m[2])[:200], m[2])
        return m

    def wrong(self, why, *ts):
        for t in ts:
            if self.r.imprecise(t) is not None:
                return Open(why)
        return Bad(why)

    def step(self, m, t, base, done, fs):
        """One effect from mode m; `done` are the effects before it on this edge (the log there is base ++ done)."""
        k, a = t.a[0], t.a[1:]
        if k == 'failed':
            return ('failed',)
        if m[0] in ('failed', 'end'):
            raise self.wrong('goes on with %s after %s' % (show(t)[:80], 'a failure' if m[0] == 'failed' else 'the proof was finished'))
        if k == 'connect':
            if m[0] != 'start' and not (m[0] == 'first' and m[2] is NIL):
                raise Open('another connection')
            return m
        if k == 'await':
            return m
        if k == 'new':
            if m[0] != 'start':
                raise Open('another builder')
            b = mk('pbs', 'new', *a)
            return ('first', mk('pq0', b), NIL)
        if k == 'write':
            if m[0] == 'first':
                return m[:2] + (ext(m[2], a[0]),)
            if m[0] == 'send':
                return m[:2] + (ext(m[2], a[0]),) + m[3:]
            raise self.wrong('%s is sent though no query was handed out' % show(a[0])[:100], a[0])
        m = self.settle(m)
        if k == 'read':
            if m[0] == 'send':
                raise self.wrong('reads on before the queries handed out were sent')
            if m[0] == 'ready':
                if a[0] is not num(2):
                    raise self.wrong('reads %s bytes for the length of a response' % show(a[0])[:100], a[0])
                return ('len', mk('input', self.log(base, done), num(2)))
            if m[0] == 'len':
                n = frombe(16, m[1])
                if a[0] is not n and a[0] is not add(scale(idx(m[1], num(0)), 256), idx(m[1], num(1))):
                    raise self.wrong('reads %s bytes of a response announced as %s' % (show(a[0])[:200], show(n)[:100]), a[0])
                return ('got', mk('input', self.log(base, done), a[0]))
            raise Open('read')
        if k in ('feed', 'refused'):
            if m[0] != 'got':
                raise self.wrong('feeds %s, which is no complete response just read' % show(a[1])[:200], a[1])
            if a[1] is not m[1]:
                raise self.wrong('feeds %s for the response %s' % (show(a[1])[:150], show(m[1])[:150]), a[1])
            if k == 'refused':
                return ('failed',)
            return ('send', mk('qs', a[0], a[1]), NIL)
        if k in ('finished', 'incomplete'):
            if m[0] != 'ready':
                raise self.wrong('finishes while %s' % {'send': 'queries are left to send', 'len': 'a response is being read', 'got': 'a response is not fed'}.get(m[0], m[0]))
            for c in fs:
                s = F.cset(c, mk('awaiting', a[0]))
                if s.single() == 0:
                    continue
                ns = [sub(t2.a[0].a[1], t2.a[0].a[0]) for t2, s2 in c.d.items() if t2.op == 'done' and s2.single() == 1 and t2.a[0].op == 'range']
                if ns and all(is_num(n) and n.a[0] < LIMIT for n in ns):
                    raise self.wrong('gives up after %s responses though more are awaited' % show(ns[0]))
                if any(y.op == 'done' for t2 in c.d for y in subterms(t2)):
                    raise Open('finishes after a bounded loop')
                raise self.wrong('finishes though responses are still awaited')
            return ('end',) if k == 'finished' else ('failed',)
        raise Open('effect %s' % k)

    def log(self, base, done):
        for t in done:
            base = ext(base, t)
        return base

    def run(self):
        """Walks every loop head reachable; returns [(mode at the end, state, value)]."""
        r = self.r
        self.modes = {NIL: ('start',)}
        todo = True
        ps = logs(r)
        while todo:
            todo = False
            self.steps += 1
            if self.steps > 50:
                raise Open('too many rounds')
            for p in ps:
                for b, ts, fs in edges(r, p):
                    if b not in self.modes:
                        if b is None or b is not NIL and b not in ps:
                            raise Open('the log at %s is not known' % show(p))
                        continue
                    m = self.arrive(self.follow(b, ts, fs), p, b, fs)
                    if p not in self.modes:
                        self.modes[p] = m
                        todo = True
                    elif self.modes[p] != m:
                        n = self.merge(self.modes[p], m, p)
                        if n != self.modes[p]:
                            self.modes[p] = n
                            todo = True
        out = []
        for st, v in r.rets:
            for b, ts, fs in splits(st.store.get(LOG, NIL), st.facts):
                if b not in self.modes:
                    raise Open('the log at a return is not known')
                out.append((self.leave(b, ts, fs), st, v))
        for p, m in self.modes.items():
            if m[0] == 'sending':
                self.whole(p, m)
        return out

    def whole(self, p, m):
        """No pass of the loop over the queries handed out leaves one out."""
        R = self.over_of(m[1])
        for v, fs in self.r.I.phis.get(p, ()):
            for b, ts, f2 in splits(v, fs):
                if b is not p:
                    continue
                for c in f2:
                    if not any(t.op == 'elem' and t.a[0] is R for k in c.d for t in subterms(k)):
                        continue
                    if not ts:
                        raise self.wrong('a query handed out is not sent', *c.d)
                    for t, s in c.d.items():
                        if t.op == 'kept':
                            raise Bad('only those queries handed out are sent which %s lets through' % t.a[0])
                        if t.op in ('le0', 'eq0') and t.a[0].op == 'lin' and all(k is seqlen(m[1]) or k.op == 'elem' for k, _ in t.a[0].a[1]):
                            continue            # the bounds of the loop
                        es = [x for x in subterms(t) if x.op == 'elem' and x.a[0] is R]
                        if es and self.r.imprecise(t) is None and not self.otherwise(t, s):
                            raise Bad('only those queries handed out are sent for which %s in %s' % (show(t)[-150:], s))

    def otherwise(self, t, s):
        """Whether some path goes on where the condition does not hold."""
        r = self.r
        if isubset(rng(t), s) or any(e.kind == 'assert' and t in subterms(e.args[0]) for e in r.evs):
            return True
        every = [fs for p in r.I.phis for v, fs in r.I.phis[p]] + [st.facts for st, v in r.rets] + [e.facts for e in r.evs]
        return any(iinter(c.d[t], s).empty() for fs in every for c in fs if t in c.d)

    def follow(self, b, ts, fs):
        m = self.modes[b]
        if m[0] == 'sending' and not (ts and ts[0].a[0] == 'write' or ts and ts[0].a[0] == 'failed'):
            # the loop over the queries handed out has to be over
            if not self.through(fs, m[1]):
                raise self.over(fs, m)
            m = ('ready',)
        done = []
        start = m
        if m[0] == 'sending':
            m = ('send', m[1], NIL, True)
        for t in ts:
            if t.a[0] not in ('write', 'failed') and start[0] == 'sending' and m[0] == 'send':
                raise Open('part of the queries are sent elsewhere')
            m = self.step(m, t, b, done, fs)
            done.append(t)
        return m

    def over(self, fs, m):
        if all(any(y.op == 'elem' and y.a[0] is self.over_of(m[1]) for t in c.d for y in subterms(t)) for c in fs):
            return Bad('the loop over the queries handed out is left before all were sent')
        return Open('the end of the loop over the queries')

    def over_of(self, qs):
        return mk('range', num(0), seqlen(qs))

    def through(self, fs, qs):
        n = seqlen(qs)
        for c in fs:
            if F.cset(c, n).single() == 0:
                continue
            if not any(t.op == 'done' and s.single() == 1 and any(y is qs for y in subterms(t)) for t, s in c.d.items()):
                return False
        return True

    def arrive(self, m, p, b, fs):
        """The mode at a loop head reached in mode m."""
        if m[0] == 'first':
            return self.settle(m)
        if m[0] == 'send':
            if len(m) == 4 and b is p:
                self.one(m)                        # one pass of the loop sent this
                return ('sending', m[1])
            if m[2] is NIL and len(m) == 3:
                if self.selfloop(p):
                    return ('sending', m[1])
                if all(F.cset(c, seqlen(m[1])).single() == 0 for c in fs):
                    return ('ready',)
                raise self.wrong('the queries handed out are not sent', m[1])
            for y in subterms(m[2]):
                if y.op == 'idx' and y.a[0] is m[1] and is_frame(m[2], y):
                    n = [F.cset(c, seqlen(m[1])) for c in fs]
                    if all(s.hi() is not None and s.hi() <= 1 for s in n):
                        return ('ready',)
                    raise self.wrong('only the query %s of those handed out is sent' % show(y.a[1])[:80], y.a[1])
            raise Open('queries sent in another form')
        if m[0] == 'sending' and b is p:
            raise Bad('a query handed out is not sent')
        return m

    def selfloop(self, p):
        return any(toks(v)[0] is p and toks(v)[1] for v, _ in self.r.I.phis[p])

    def one(self, m):
        """One pass of a loop over the queries: exactly one query of the list, framed."""
        d, qs = m[2], m[1]
        for y in subterms(d):
            if y.op == 'idx' and y.a[0] is qs and is_frame(d, y):
                e = y.a[1]
                if e.op != 'elem':
                    raise Open('which query is sent is not known')
                R = e.a[0]
                if R.op == 'range':
                    if R is self.over_of(qs):
                        return
                    raise self.wrong('only the queries %s are sent' % show(R)[:100], R)
                raise Open('order of the queries')
        raise self.wrong('a pass over the queries handed out sends %s' % show(d)[:200], d)

    def merge(self, a, b, p):
        if 'failed' in (a[0], b[0]):
            return a if a[0] == 'failed' else b
        raise Open('%s meets %s' % (a[0], b[0]))

    def leave(self, b, ts, fs):
        m = self.modes[b]
        if not ts and m[0] == 'sending':
            return m
        return self.follow(b, ts, fs)


def drive(ctx, rep, key, f, r, ty):
    me = f['span']
    new = [e for e in r.evs if e.kind == 'builder' and e.name == 'new']
    if not new:
        return rep.unknown(key + ':builder', 'no proof builder is created here', me)
    for e in new:
        n, t = e.args
        want = name_of(r, 1)
        if r.imprecise(n) is not None:
            rep.unknown(key + ':name', show(n)[:100], e.span)
        else:
            rep.judge(key + ':name', n is want, 'the query name is %s' % show(n)[:100], e.span)
        if r.imprecise(t) is not None:
            rep.unknown(key + ':type', show(t)[:100], e.span)
        else:
            rep.judge(key + ':type', t is num(ty), 'the query type is %s, wanted %d' % (show(t)[:100], ty), e.span)
    for e in r.evs:
        if e.kind == 'io' and e.name == 'connect' and e.args:
            rep.judge(key + ':resolver', True if e.args[0] is mk('param', 'p0') else None if r.imprecise(e.args[0]) is not None else False,
                      'connects to %s' % show(e.args[0])[:100], e.span)
    w = Walk(r)
    try:
        ends = w.run()
    except Bad as x:
        return rep.bad(key + ':protocol', str(x)[:400], me)
    except Open as x:
        return rep.unknown(key + ':protocol', str(x)[:300], me)
    okn = 0
    for m, st, v in ends:
        if v.op == 'agg' and v.a[0] == 'std::task::Poll':
            v = v.a[2][0]
        if is_ok(v):
            x = pay(v)
            if m[0] != 'end':
                rep.bad(key + ':result', 'a proof is returned after %s' % m[0], me)
                continue
            okn += 1
            b = [a for a in subterms(st.store[LOG]) if a.op == 'io' and a.a[0] == 'finished'][-1].a[1]
            want = mk('agg', 'tuple', 0, (mk('proofof', b), mk('proofttl', b)))
            rep.judge(key + ':result', True if x is want else None if r.imprecise(x) is not None else False, 'returns %s' % show(x)[:150], me)
        elif is_err(v):
            if m[0] == 'failed':
                rep.good(key + ':errors', 'an error is returned only after a failed step', me)
            elif m[0] == 'end':
                rep.bad(key + ':errors', 'an error is returned though the proof was finished', me)
            else:
                rep.bad(key + ':errors', 'gives up (%s) though no step failed, under %s' % (show(v)[:80], '; '.join(str(c)[-200:] for c in st.facts[:1])), me)
        else:
            rep.unknown(key + ':result', show(v)[:100], me)
    if okn:
        rep.good(key + ':protocol', 'every query sent, every response fed, the first error ends the run', me)


def name_of(r, i):
    return mk('fld', mk('param', 'p%d' % i), '0')


def dispatch(ctx, rep):
    r, g = handler(ctx, rep)
    if r is None:
        return
    seen = set()
    for e in r.evs:
        if e.kind != 'build':
            continue
        k = e.name
        w = e.span
        seen.add(k)
        res, nm = e.args
        rep.judge('http:%s:resolver' % k, True if res is mk('param', 'p1') else None if r.imprecise(res) is not None else False,
                  'the proof is built with resolver %s' % show(res)[:100], w)
        typ(rep, r, e, k, w)
        # the name is what was parsed from the argument d
        base = nm.a[0] if nm.op == 'lower' else nm
        if base not in r.I.phis:
            base = unchanged(rep, r, e, 'http:%s:name' % k, base, w)
        arg(rep, r, 'http:%s:name' % k, base, b'd', w)
    for k in TYPES:
        if k not in seen:
            rep.bad('http:%s' % k, 'no request is answered with the %s proof builder' % k.upper(), g['span'])


TEXTS = [x.encode() for t in ('TXT', 'TLSA', 'A', 'AAAA', 'CNAME', 'DNAME', 'NS', 'MX', 'SOA', 'PTR', 'SRV', 'DS', 'DNSKEY', 'NSEC', 'NSEC3', 'RRSIG', 'CAA', 'ANY', 'SPF', 'HTTPS', 'AA', 'AAA', 'TX', 'TXTT', '1', '16', '28', '52', 'X')
         for x in (t, t.lower(), t.title())]


def others(rep, r, e, k, w):
    """No other type's name leads to this builder, each spelling of its own does not lead elsewhere."""
    P = Points(r)
    leaves_ = set()
    for c in e.facts:
        for t in c.d:
            for y in subterms(t):
                if y.op == 'eq' and any(isinstance(z, T) and z.op == 'bytes' and z.a[0] and z.a[0].upper() in TEXTS for z in y.a):
                    for z in y.a:
                        if isinstance(z, T) and z.op != 'bytes':
                            while z.op in ('upper', 'lower'):
                                z = z.a[0]
                            leaves_.add(z)
    if len(leaves_) != 1:
        return
    L = leaves_.pop()
    for c in e.facts:
        about = {t: s for t, s in c.d.items() if any(y is L for y in subterms(t))}
        for x in TEXTS:
            env = {L: x, seqlen(L): len(x)}
            if x.upper() != k.upper().encode() and P.at([F.Conj(about)], env):
                return rep.bad('http:%s:type' % k, 'requests for type %s are answered with the %s builder' % (x.decode(), k.upper()), w)
    rep.good('http:%s:only' % k, 'no other of %d texts leads to it' % len(TEXTS), w)


def typ(rep, r, e, k, w):
    key = 'http:%s:type' % k
    names = {x.upper().encode(): x for x in TYPES}
    others(rep, r, e, k, w)
    for c in e.facts:
        hits = []
        for t, s in c.d.items():
            if t.op == 'eq' and s.single() == 1 and any(isinstance(y, T) and y.op == 'bytes' and y.a[0].upper() in names for y in t.a):
                hits.append(t)
        if not hits:
            if any(y.op == 'bytes' and y.a[0].upper() in names for t in c.d for y in subterms(t)):
                rep.unknown(key, 'how the type is compared is not known', w)
            else:
                rep.bad(key, 'the %s builder is called whatever type was asked for' % k.upper(), w)
            continue
        for t in hits:
            x, y = t.a[:2]
            if x.op == 'bytes':
                x, y = y, x
            want = names[y.a[0].upper()]
            if want != k:
                rep.bad(key, 'requests for %s are answered with the %s builder' % (want.upper(), k.upper()), w)
                continue
            if x.op in ('upper', 'lower'):
                if (y.a[0].upper() if x.op == 'upper' else y.a[0].lower()) != y.a[0]:
                    rep.bad(key, '%s is compared with text in the other case' % show(x)[:50], w)
                    continue
                arg(rep, r, key + ':argument', x.a[0], b't', w)
                rep.good(key, 'called for the type %s in any case' % y.a[0].decode(), w)
            elif r.imprecise(x) is not None or x.op not in ('phi', 'slice', 'part'):
                rep.unknown(key, show(x)[-100:], w)
            else:
                rep.bad(key, 'the type parameter is compared with %r in one case only' % y.a[0], w)


def unchanged(rep, r, e, key, x, w):
    """The argument x is made of, if the text made is the argument's at every sample; a sample at which it differs is
    reported."""
    ph = {y for y in subterms(x) if y in r.I.phis and not any(y is not z and y in subterms(z) for z in subterms(x) if z in r.I.phis)}
    if len(ph) != 1:
        return x
    A = ph.pop()
    pt = Points(r)
    pt.ops.update(strfn=names.strfn, validname=lambda go, y: int(names_valid(go(y.a[0]).lower())))
    words = [y.a[0] for y in subterms(x) if y.op == 'bytes' and y.a[0]]
    try:
        for s in [b'a.', b'www.a.', b'_443._tcp.x.org.', b'a.b.c.d.', b'.'] + [t for k in words for t in (k + b'a.', b'a.' + k + b'b.', b'a.' + k) if names_valid(t)]:
            cs = [F.Conj({t: q for t, q in c.d.items() if A in subterms(t)}) for c in e.facts]
            if any(pt.at([c], {A: s}) is True for c in cs):
                v = pt.value(x, {A: s})
                if v.lower() != s:
                    rep.bad(key, 'a proof for %r is built when %r is asked for' % (v, s), w)
                    return x
            elif not all(pt.at([c], {A: s}) is False for c in cs):
                return x
    except NoVal:
        return x
    return A


def names_valid(t):
    if t == b'.':
        return True
    return t == t.lower() and t.endswith(b'.') and all(0 < len(l) < 64 for l in t[:-1].split(b'.')) and all(32 < c < 127 for c in t)


def arg(rep, r, key, x, letter, w):
    """x is the value of the URI argument named by the letter."""
    if x not in r.I.phis:
        return rep.unknown(key, show(x)[-100:], w)
    seen, todo = set(), [x]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for v, fs in r.I.phis[p]:
            if v in r.I.phis:
                todo.append(v)
            elif v.op != 'bytes':
                # the text after a separator; the key is the text of the same argument before it
                for c in fs:
                    pos, neg, other = set(), set(), v.op != 'slice'
                    for t, s in c.d.items():
                        cs = [y.a[0] for y in t.a if isinstance(y, T) and y.op == 'bytes'] if t.op == 'eq' else []
                        ks = [y for y in t.a if isinstance(y, T) and y.op == 'slice' and v.op == 'slice' and y.a[0] is v.a[0] and y.a[1] is num(0)] if t.op == 'eq' else []
                        if cs and ks:
                            (pos if s.single() == 1 else neg).add(cs[0])
                        elif any(y.op == 'bytes' and y.a[0] in (letter, letter + b'=') for y in subterms(t)):
                            other = True
                    if pos == {letter}:
                        rep.good(key, 'taken from the argument %s' % letter.decode(), w)
                    elif pos and not other and letter not in pos:
                        rep.bad(key, 'taken from the argument %s' % sorted(pos), w)
                    elif neg and not pos and not other and not any(r.imprecise(t) is not None for t in c.d):
                        rep.bad(key, 'taken from any argument that is none of %s' % sorted(neg), w)
                    else:
                        rep.unknown(key, 'which argument it is taken from is not known', w)


def check(ctx, rep):
    P = ctx.prog()
    dispatch(ctx, rep)
    n = 0
    for k, ty in TYPES.items():
        for sfx in ('', '_async'):
            key = 'build_%s_proof%s' % (k, sfx)
            for f in rep.need(key):
                r = ctx.run(f, extra=CUTS.DRIVE)
                if not r.ok:
                    rep.unknown(key, r.why, f['span'])
                    continue
                n += 1
                drive(ctx, rep, key, f, r, ty)
    rep.floor('entry points', n, 8)
