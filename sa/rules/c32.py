"""Base32hex decoding is exact.

The decoder's recurrences are extracted: what is stored for a digit (tabulated for all 256 bytes), where in its group of
eight it is stored, the five bytes made of a group (tabulated for every digit value at every place), the length of the
result and the lengths refused (tabulated), and the test on what is left over.
"""
RULE = 'extracted digit, group and length forms of the decoder, tabulated over bytes, digit values and lengths'
from base import *

DIG = {c: i for i, c in enumerate(b'0123456789ABCDEFGHIJKLMNOPQRSTUV')}
DIG.update({c: i for i, c in enumerate(b'0123456789abcdefghijklmnopqrstuv')})


def group(ds):
    n = 0
    for d in ds:
        n = n << 5 | d
    return [n >> 32 & 255, n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]


def check(ctx, rep):
    fs = rep.need('base32::decode')
    if not fs:
        return
    r = ctx.run(fs[0])
    w = fs[0]['span']
    if not r.ok or r.unmod():
        return rep.unknown('decode', r.why or 'unmodelled %s' % sorted(r.unmod())[:3], w)
    decode(rep, r, w)


def decode(rep, r, w):
    p = r.p(0)
    L = seqlen(p)
    n, seen = 0, set()
    for st, v in r.rets:
        if is_err(v):
            continue
        if not is_ok(v):
            rep.unknown('result', show(v)[:120], w)
            continue
        x = pay(v)
        n += 1
        for c in st.facts:
            lens(rep, r, c, L, w)
        if x.op != 'slice' or x.a[0] not in r.I.phis or x.a[1] is not num(0):
            if x in r.I.phis:
                leftover(rep, r, st, x, None, L, w)
                R = x
            else:
                rep.unknown('result', show(x)[:160], w)
                continue
        else:
            R, e = x.a[0], x.a[2]
            bad = None
            try:
                bad = next((k for k in range(0, 65) if evalt(e, {L: k}) != k * 5 // 8), None)
                rep.judge('length', bad is None, 'length/8*5 bytes' if bad is None else '%s digits give %s bytes' % (bad, evalt(e, {L: bad})), w)
            except NoVal:
                rep.unknown('length', show(e)[:120], w)
            leftover(rep, r, st, R, e, L, w)
        if R not in seen:
            seen.add(R)
            groups(rep, r, R, w)
    rep.floor('successful returns of decode', n, 1)


def lens(rep, r, c, L, w):
    ok_ = set()
    for k in range(0, 32):
        good = True
        for t, s in c.d.items():
            try:
                if not s.has(evalt(t, {L: k})):
                    good = False
            except NoVal:
                pass
        if good:
            ok_.add(k)
    bad = sorted(k for k in ok_ if k % 8 in (1, 3, 6))
    rep.judge('lengths', not bad, 'lengths 1, 3 and 6 modulo 8 are refused' if not bad else '%d digits are accepted' % bad[0], w)


def leftover(rep, r, st, R, e, L, w):
    for c in st.facts:
        hit, other_form = None, False
        for t, q in c.d.items():
            if t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over':
                s = t.a[0].a[0]
                if s.op == 'slice' and s.a[0] is R and s.a[1] is e and s.a[2] is seqlen(R):
                    for alt in t.a[1]:
                        ks = [(k, z) for k, z in alt if k.op != 'le0']
                        if len(ks) == 1 and ks[0][0].op == 'idx' and ks[0][0].a[0] is R:
                            hit = all(ks[0][1].has(i) for i in range(16, 256, 16))
                        elif len(ks) == 1 and len({y for y in subterms(ks[0][0]) if y.op == 'idx' and y.a[0] is R}) == 1:
                            b = next(y for y in subterms(ks[0][0]) if y.op == 'idx' and y.a[0] is R)
                            try:    # what is left over are at most the high four bits of a byte
                                hit = all(ks[0][1].has(evalt(ks[0][0], {b: i})) for i in range(16, 256, 16))
                            except NoVal:
                                other_form = True
                        else:
                            other_form = True
        if hit is None:
            other = other_form or any(any(y is R for y in subterms(t)) for t in c.d if t.op in ('exists', 'count', 'eq') or t.op not in ('le0', 'done'))
            other = other or any(y in r.I.phis and y is not R for t in c.d for y in subterms(t))    # bits carried in another loop value
            hit = None if other or any(r.imprecise(t) is not None for t in c.d) else False
        rep.judge('leftover', hit, 'non-zero leftover bits are refused' if hit else 'leftover bits are not all checked', w)


def groups(rep, r, R, w):
    B = None
    for v, fs in r.I.phis[R]:
        if v is NIL:
            continue
        ps = parts(v)
        if not ps or ps[0] is not R:
            rep.unknown('group', show(v)[:160], w)
            continue
        out = ps[1:]
        bs = {y.a[0] for x in out for y in subterms(x) if y.op == 'idx' and y.a[0] in r.I.phis}
        if len(bs) != 1 or any(x.op != 'be' or x.a[0] != 8 and x.a[0] is not num(8) for x in out):
            rep.unknown('group', show(v)[:160], w)
            continue
        B = bs.pop()
        bad = None
        try:
            pts = [[d if i == j else o for i in range(8)] for j in range(8) for d in range(32) for o in (0, 31)]
            for ds in pts:
                env = {mk('idx', B, num(i)): ds[i] for i in range(8)}
                env.update({idx(B, num(i)): ds[i] for i in range(8)})
                got = [evalt(x.a[1], env) & 255 for x in out]
                if got != group(ds):
                    bad = (ds, got)
                    break
        except NoVal as e:
            rep.unknown('group', str(e)[:100], w)
            continue
        rep.judge('group', bad is None, 'eight digits make five bytes, most significant bits first' if bad is None else 'digits %s make bytes %s' % bad, w)
        digits(rep, r, B, w)


def digits(rep, r, B, w):
    acc, same = {}, []
    p = r.p(0)
    for v, fs in r.I.phis[B]:
        if v.op == 'rep':
            rep.judge('pad', v.a[0] is num(0) and v.a[1] is num(8) or None, 'missing digits count as zero', w)
            continue
        if v.op in ('arr', 'bytes'):
            continue
        if v is B:
            same.append(fs)
            continue
        if v.op != 'set' or v.a[0] is not B:
            rep.unknown('digit', show(v)[:120], w)
            return
        pos, val = v.a[1], v.a[2]
        chs = {y for c in fs for t in c.d for y in subterms(t) if y.op == 'idx' and (y.a[0].op == 'chunk' or y.a[0] is p)} | \
            {y for y in subterms(val) if y.op == 'idx' and (y.a[0].op == 'chunk' or y.a[0] is p)}
        if len(chs) != 1:
            rep.unknown('digit', 'digit read from %s' % [show(x)[:60] for x in chs], w)
            return
        ch = chs.pop()
        if ch.a[0].op == 'chunk':
            rep.judge('digit:chunk', ch.a[0].a[0] is p and ch.a[0].a[1] in (8, num(8)), 'groups of eight digits', w)
            rep.judge('digit:place', ch.a[1] is pos, 'the digit at place i of a group goes to place i' if ch.a[1] is pos else 'the digit at %s goes to place %s' % (show(ch.a[1])[:40], show(pos)[:40]), w)
        for b in range(256):
            for c in fs:
                k = True
                for t, q in c.d.items():
                    if any(y is ch for y in subterms(t)):
                        try:
                            if not q.has(evalt(t, {ch: b})):
                                k = False
                                break
                        except NoVal:
                            return rep.unknown('digit', 'guard %s' % show(t)[:100], w)
                if k:
                    try:
                        acc.setdefault(b, set()).add(evalt(val, {ch: b}))
                    except NoVal:
                        return rep.unknown('digit', 'value %s' % show(val)[:100], w)
    for fs in same:
        for c in fs:
            chs = {y for t in c.d for y in subterms(t) if y.op == 'idx' and (y.a[0].op == 'chunk' or y.a[0] is p)}
            if len(chs) != 1:
                return rep.unknown('digit', 'a digit passed over under %s' % str(c)[:100], w)
            ch = chs.pop()
            for b in range(256):
                v = facts_at([F.Conj({t: q for t, q in c.d.items() if any(y is ch for y in subterms(t))})], {ch: b})
                if v is None:
                    return rep.unknown('digit', 'a digit passed over under %s' % str(c)[:100], w)
                if v:
                    acc.setdefault(b, set()).add(0)
    if not acc:
        return rep.unknown('digit', 'no digit accepted', w)
    for b in range(256):
        want = {DIG[b]} if b in DIG else None
        if acc.get(b) != want:
            return rep.bad('digit', 'byte %d is read as %s, not %s' % (b, sorted(acc[b]) if b in acc else 'an error', DIG.get(b, 'an error')), w)
    rep.good('digit', 'all 256 bytes: exactly the base32hex digits of either case are accepted, with their values', w)
