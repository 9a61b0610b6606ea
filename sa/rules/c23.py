"""Queries are well-formed DNSSEC queries for the requested name and type.

The bytes build_query returns are derived as a concatenation of constants and encoded arguments by abstract
interpretation of its body (wire-name writing and the buffer are modular contracts, discharged under C16 and
C28), and compared part by part with the required message.  For the blocking and asynchronous senders the
sequence of socket writes on the success path is derived and must be the 16-bit big-endian length of the
query followed by the query.
"""
RULE = 'normal form of the query bytes evaluated over names and types; ordered socket-write effects of the senders'
from base import *
from points import Points
import names


def check(ctx, rep):
    P = ctx.prog()
    for f in rep.need('build_query'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('build_query', r.why, w)
            continue
        whole(rep, r, w)
        rep.floor('query results', len(r.rets), 1)
    # senders
    n = 0
    for key in ('send_query', 'send_query_async'):
        for f in rep.ctx.fns(key):
            n += sender(ctx, rep, f, key)
    rep.floor('senders', n, 1)


def wire(n):
    return b'\0' if n == b'.' else b''.join(bytes([len(x)]) + x for x in n.split(b'.'))


OPS = dict(names.NOPS, wname=lambda go, x: wire(text(go(x.a[0]))), tnl=lambda go, x: tnl(text(go(x.a[0])), go(x.a[1])), lower=lambda go, x: text(go(x.a[0])).lower())


def text(x):
    if not isinstance(x, bytes):
        raise NoVal('text')
    return x


def tnl(n, k):
    ls = [] if n == b'.' else n[:-1].split(b'.')
    if not 0 <= k <= len(ls):
        raise NoVal('tnl')
    return b'.'.join(ls[len(ls) - k:]) + b'.'


def whole(rep, r, w):
    """The message for sample names and types: header | name | type | class, OPT owner, OPT type, udp size, ext rcode, version, flags, rdlen."""
    N, T = nametext(r.p(0)), r.p(1)
    pt = Points(r)
    pt.ops = dict(pt.ops, **OPS)
    bad, good = {}, 0
    TYPES = [1, 2, 5, 12, 15, 16, 28, 33, 39, 43, 46, 47, 48, 50, 51, 52, 99, 255, 256, 257, 65535]
    try:
        for n, k in [(n, k) for n in names.NAMES for k in TYPES] + [(b'example.com.', k) for k in KS]:
            env = {N: n, T: k}
            hit = 0
            for st, v in r.rets:
                g = pt.at(st.facts, env)
                if g is None:
                    raise NoVal('conditions %s' % str(st.facts[0])[:200])
                if not g:
                    continue
                hit += 1
                q = pt.value(v, env)
                what = 'for %s, type %d' % (n.decode() if len(n) < 40 else 'a name of %d labels and %d bytes' % (n.count(b'.'), len(n)), k)
                if q[:12] != bytes.fromhex('000001200001000000000001'):
                    bad.setdefault('header', '%s the header is %s' % (what, q[:12].hex()))
                    continue
                m = wire(n)
                t = q[12 + len(m) + 2:]
                if q[12:12 + len(m)] != m:
                    bad.setdefault('name', '%s the question is %s' % (what, q[12:12 + len(m)].hex()[:80]))
                elif q[12 + len(m):][:2] != k.to_bytes(2, 'big'):
                    bad.setdefault('type', '%s type %s is asked for' % (what, q[12 + len(m):][:2].hex()))
                elif not (len(t) == 13 and t[:2] == b'\0\1' and t[2:5] == b'\0\0\x29' and t[7:9] == b'\0\0' and t[9] == 0x80 and t[10] == 0 and t[11:] == b'\0\0'):
                    bad.setdefault('tail', '%s class and OPT record are %s' % (what, t.hex()))
                else:
                    good += 1
            if not hit and not bad:
                raise NoVal('no result for a name')
        for k in ('header', 'name', 'type', 'tail'):
            rep.judge(k, k not in bad, bad.get(k, '%d names and types' % good), w)
    except (NoVal, TypeError, IndexError, ValueError, OverflowError) as e:
        if bad:
            for k in bad:
                rep.bad(k, bad[k], w)
        else:
            rep.unknown('bytes', 'query bytes not evaluated: %s; %s' % (e, show(r.rets[0][1])[:200] if r.rets else ''), w)


KS = list(range(0, 300)) + [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1ff, 0x1234, 0x7fff, 0x8000, 0xfeff, 0xff00, 0xffff]


def fixed(ps, x):
    """The bytes of a run of parts for sample values of the one free number, None when they hold something else."""
    try:
        return {k: b''.join(bytes(evalt(y, {x: k})) for y in ps) for k in KS}
    except (NoVal, TypeError, IndexError, ValueError):
        return None


def sender(ctx, rep, f, key):
    r = ctx.run(f)
    w = f['span']
    if not r.ok:
        rep.unknown(key, r.why, w)
        return 1
    logs = writes(r)
    if logs is None:
        rep.unknown(key, 'write sequence not derived', w)
        return 1
    for st, ws in logs:
        q = r.p(1)
        b = byts(b'')
        for x in ws:
            b = ext(b, x)
        short = [y for x in ws for y in subterms(x) if y.op == 'ion' and y.a[0] is mk('k', 'write')]
        if len(set(short)) == 1 and len(ws) == 2 and Points(r).at(list(st.facts), {short[0]: 1, seqlen(r.p(1)): 5}) is True:
            rep.bad(key, 'a write that takes only part of the message is not followed by one of the rest', w)
            continue
        bad = r.imprecise(b)
        if bad is not None:
            rep.unknown(key, 'writes depend on %s' % show(bad), w)
            continue
        ps = parts(b)
        at = [i for i, y in enumerate(ps) if y is q]
        h = fixed(ps[:at[0]] if at else ps, seqlen(q))
        t = fixed(ps[at[0] + 1:], seqlen(q)) if len(at) == 1 else {}
        rep.judge(key, None if h is None or t is None else len(at) == 1 and all(x == k.to_bytes(2, 'big') for k, x in h.items()) and set(t.values()) == {b''},
                  'writes %s' % ' | '.join(show(x) for x in ps)[:300], w)
    return 1


def writes(r):
    from engine import LOG
    out = []
    for st, v in r.rets:
        if not is_ok(v):
            continue
        lg = st.store.get(LOG)
        if lg is None:
            return None
        ws = []
        for x in flat(lg):
            if x.op == 'io' and x.a[0] == 'write':
                ws.append(x.a[1])
        out.append((st, ws))
    return out
