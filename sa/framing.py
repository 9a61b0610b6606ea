"""How one record lies in the bytes it is read from, and how a stream of records is read."""
from base import *
from points import Points


def header(ctx, rep, what=('ttl', 'rest')):
    """The TTL handed on with a record is the four bytes behind its class, and what follows its data is read next."""
    for f in ctx.fns('parse_wire_packet_rr'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('record', r.why, w)
            continue
        x, pkt = r.arg(0), r.p(1)
        nl = mk('namelen_in', x, pkt)
        at = lambda a, b: slice_(x, add(nl, num(a)), add(nl, num(b)))
        for st, v in r.rets:
            if not is_ok(v):
                continue
            p = pay(v)
            if 'ttl' in what:
                t = p.a[2][1] if p.op == 'agg' and len(p.a[2]) == 2 else None
                if t is None:
                    rep.unknown('record:ttl', show(v)[:120], w)
                else:
                    say(rep, r, 'record:ttl', x, nl, t, lambda b: int.from_bytes(b[5:9], 'big'), 'the TTL is that of the record', w)
            if 'rest' in what:
                o = r.out(st, 0)
                if o is None or o.op != 'slice' or o.a[0] is not x:
                    rep.unknown('record:rest', show(o)[:120] if o is not None else '', w)
                else:
                    say(rep, r, 'record:rest', x, nl, o.a[1], lambda b: 11 + int.from_bytes(b[9:11], 'big'), 'reading goes on behind the data of the record', w)


def say(rep, r, key, x, nl, t, want, good, w):
    if r.imprecise(t) is not None or any(y in r.I.phis for y in subterms(t)):
        return rep.unknown(key, show(t)[:160], w)
    pt = Points(r)
    for k in range(40):
        b = bytes([0]) + bytes((k * 37 + i * 101 + (i * k) % 7) & 255 for i in range(8)) + bytes([k % 3, (k * 29) & 255]) + bytes(i & 255 for i in range(1100))
        try:
            got = pt.value(t, {x: b, seqlen(x): len(b), nl: 1})
        except (NoVal, TypeError, ValueError, IndexError):
            return rep.unknown(key, show(t)[:160], w)
        if got != want(b):
            return rep.bad(key, '%d instead of %d for the bytes %s' % (got, want(b), b[:11].hex()), w)
    rep.good(key, good, w)


def stream(ctx, rep, refused_only=False):
    """A stream of records is read to its end, every record is kept in order, and one that is refused refuses it all."""
    for f in rep.need('parse_rr_stream'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('stream', r.why, w)
            continue
        n = 0
        for st, v in r.rets:
            if is_err(v):
                continue
            L = pay(v) if is_ok(v) else None
            if L is None:
                rep.unknown('stream', show(v)[:120], w)
                continue
            for c in st.facts:
                n += 1
                lens = [t.a[0] for t in c.d if t.op == 'len' and cursor(r, t.a[0])]
                refused = [t for t, q in c.d.items() if t.op == 'discr' and t.a[0].op == 'prr' and q.single() == 1]
                if refused:
                    rep.judge('stream:refused', None if any(r.imprecise(t) is not None for t in c.d) else False, 'records are returned although one was refused', w)
                    continue
                if refused_only:
                    continue
                if any(c.d[seqlen(p)].single() == 0 for p in lens):
                    rep.good('stream:end', 'a stream is done only when its bytes are used up', w)
                elif c.d and all(plain(r, t, L) for t in c.d):
                    rep.bad('stream:end', 'a stream is taken as read with bytes left: %s' % str(c)[:160], w)
                else:
                    rep.unknown('stream:end', str(c)[:200], w)
            if refused_only or L not in r.I.phis:
                continue
            for inc, fs in r.I.phis[L]:
                if inc.op == 'bytes' or inc is NIL or inc.op == 'arr' and not inc.a[0]:
                    continue
                if inc.op == 'push' and inc.a[0] is L and inc.a[1].op == 'prr_rr' and cursor(r, inc.a[1].a[0]):
                    if any(y.op == 'at' for y in inc.a[2].a):
                        rep.judge('stream:kept', False if any(y.op == 'at' and is_num(y.a[0]) for y in inc.a[2].a) else None, 'a record is put elsewhere than behind the others', w)
                        continue
                    rep.good('stream:kept', 'each record read is added behind the others', w)
                elif inc is L:
                    for c in fs:
                        read = any(t.op == 'discr' and t.a[0].op == 'prr' and q.single() == 0 for t, q in c.d.items())
                        odd = any(r.imprecise(t) is not None for t in c.d)
                        rep.judge('stream:kept', None if odd or not read else False, 'a record that was read is left out', w)
                else:
                    rep.unknown('stream:kept', show(inc)[:160], w)
        rep.floor('stream returns', n, 1, hard=False)


def cursor(r, x):
    """The bytes still to be read: a loop value that starts as the input."""
    return x in r.I.phis and any(v is r.p(0) for v, _ in r.I.phis[x]) or x is r.p(0)


def plain(r, t, L):
    """A condition on nothing but how many bytes are left or how many records were read."""
    ys = [y for y in subterms(t) if y.op not in ('int', 'lin', 'len', 'le0', 'eq0', 'in', 'site', 'ctx')]
    ok_ = lambda y: cursor(r, y) or y is L or y.op == 'phi' and y.a[0] is L.a[0] or y.op == 'param'
    return t.op in ('len', 'le0', 'eq0', 'in') and not [y for y in subterms(t) if y.op in ('idx', 'unk', 'havoc', 'opq', 'rec')] and any(ok_(y) for y in ys) \
        and all(ok_(y.a[0]) for y in subterms(t) if y.op == 'len')
