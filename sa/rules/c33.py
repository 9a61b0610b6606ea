"""Key tags follow RFC 4034 Appendix B.

The result of key_tag is derived as a recurrence by abstract interpretation of its body: initial value, the
contribution of the key byte at each index (split by index parity), and the final folding expression.  Each of
the three is compared with the RFC's checksum: flags as one big-endian word, protocol*256+algorithm as the
next, key byte i weighted 256 for even i and 1 for odd i, and the fold (acc + acc>>16) mod 2^16.
"""
RULE = 'coefficient comparison of the key_tag recurrence with RFC 4034 Appendix B'
from base import *
from rules.c21 import whole
from points import Points


STEPS = sorted(set(range(40)) | {2 ** k + d for k in range(5, 16) for d in range(-3, 4)})


def stops(r, S, st, ph):
    """A byte of a long key after which the loop is left, or None."""
    pt = Points(r)
    for c in st.facts:
        if any(t.op == 'done' for t in c.d) or any(y in r.I.phis and y is not ph for t in c.d for y in subterms(t)):
            continue
        es = {y for t in c.d for y in subterms(t) if y.op == 'elem'}
        if len(es) != 1:
            continue
        e = es.pop()
        for k in STEPS:
            if pt.at([c], {S: b'\xff' * 65531, e: k, ph: sum(255 * 256 if i % 2 == 0 else 255 for i in range(k))}) is True:
                return 'the loop is left at byte %d of a key of 65531 bytes' % k
    return None


def check(ctx, rep):
    P = ctx.prog()
    f = find(ctx, rep, 'DnsKey::key_tag', ['&rr::DnsKey'], 'u16')
    if f is None:
        return
    r = ctx.run(f)
    w = f['span']
    if not r.ok:
        return rep.unknown('key_tag', r.why, w)
    k = r.p(0)
    fl = {n: mk('fld', k, n) for n in ('flags', 'protocol', 'alg', 'pubkey')}
    base_want = add(add(fl['flags'], scale(fl['protocol'], 256)), fl['alg'])
    for st, v in r.rets:
        bad = r.imprecise(v)
        if bad is not None:
            rep.unknown('result', show(bad), w)
            continue
        ph = [x for x in subterms(v) if x.op == 'phi']
        if len(ph) != 1:
            rep.unknown('result', 'no single accumulator in %s' % show(v)[:200], w)
            continue
        ph = ph[0]
        # final fold
        wit = None
        try:
            for x in SAMPLE:
                if evalt(v, {ph: x}) != (x + (x >> 16)) % 65536:
                    wit = x
                    break
            rep.judge('fold', wit is None, 'result %s%s' % (show(v), '' if wit is None else ' differs at accumulator %d' % wit), w)
        except NoVal:
            rep.unknown('fold', show(v)[:200], w)
        # initial value and increments
        inits, incs = [], []
        for x, fs in r.phi(ph):
            d = sub(x, ph)
            if any(y is ph for y in subterms(d)):
                inits.append((x, fs))
            else:
                incs.append((d, fs, x))
        # the sequence the loop goes through: the key bytes, perhaps behind the fixed fields
        S = {y.a[0].a[0] if y.a[0].op in ('chunk', 'slice') else y.a[0] for d, _, _ in incs for y in subterms(d) if y.op == 'idx'}
        if len(S) != 1:
            rep.unknown('step', 'goes through %s' % ', '.join(show(y)[:60] for y in S), w)
            continue
        S = S.pop()
        g = whole(r, ph, S, 65531)
        if g is None:
            g = stops(r, S, st, ph)
        rep.judge('all', False if isinstance(g, str) else g, g if isinstance(g, str) else 'the loop goes over all of the key', w)
        head = flat(S)[:-1] if S is not fl['pubkey'] and flat(S)[-1:] == [fl['pubkey']] else []
        for x, fs in inits:
            if any(y is ph for y in subterms(x)):
                rep.unknown('step', 'not an addition: %s' % show(x)[:200], w)
            elif x is base_want and not head:
                rep.good('init', 'initial value %s' % show(x), w)
            else:
                try:
                    bad = None
                    for e in ({fl['flags']: i, fl['protocol']: j, fl['alg']: k_} for i in (0, 1, 0x101, 0xff00, 0xffff) for j in (0, 3, 255) for k_ in (0, 8, 255)):
                        h = b''.join(bytes(evalt(y, e)) for y in head)
                        if len(h) % 2 or evalt(x, e) + sum(h[0::2]) * 256 + sum(h[1::2]) != evalt(base_want, e):
                            bad = bad or e
                    rep.judge('init', bad is None, 'initial value %s%s' % (show(x), ' before %s' % [show(y) for y in head] if head else ''), w)
                except (NoVal, TypeError, ValueError):
                    rep.unknown('init', show(x)[:200], w)
        for d, fs, x in incs:
            step(rep, r, S if head else fl['pubkey'], d, fs, w)


SAMPLE = sorted({a + b for a in [0, 1, 255, 65535, 65536, 65537, 131071, 1 << 20, 0x1ffff, 0x2fffe, 0xffff0000 // 4, 0x7ffe8001, 0x12345678] for b in range(-2, 3) if a + b >= 0} | {i << 16 for i in range(0, 32768, 257)} | {(i << 16) | 0xffff for i in range(0, 32768, 511)})


def step(rep, r, key, d, fs, w):
    c, p = lin_parts(d)
    if c == 0 and not p:
        return rep.unknown('step', 'an iteration that adds nothing', w)
    if c != 0:
        return rep.bad('step', 'adds the constant %d: %s' % (c, show(d)), w)
    # single byte per iteration
    if len(p) == 1:
        (a, co), = p.items()
        if a.op == 'idx' and a.a[0] is key:
            par = EMPTY
            e = a.a[1]
            known_par = False
            for cj in fs:
                s = F.cset(cj, mod(e, 2)) if not is_num(mod(e, 2)) else iset(mod(e, 2).a[0])
                par = iunion(par, iinter(s, irange(0, 1)))
            for b in (0, 1):
                if par.has(b):
                    want = 256 if b == 0 else 1
                    if co == want:
                        rep.good('step%d' % b, 'byte at %s index weighs %d' % (['even', 'odd'][b], co), w)
                    else:
                        rep.bad('step%d' % b, 'byte at %s index weighs %d, RFC says %d' % (['even', 'odd'][b], co, want), w)
            return
        if co == 1 and a.op == 'frombe' and a.a[0] == 16:
            return rep.good('word', 'adds big-endian word %s' % show(a), w)
    # two bytes per iteration, or a word of a two-byte chunk
    byi = {}
    for a, co in p.items():
        if a.op == 'idx' and a.a[0].op in ('chunk', 'slice', 'sub', 'window') and is_num(a.a[1]):
            byi[a.a[1].a[0]] = co
        elif a.op == 'idx' and a.a[0] is key:
            m = mod(a.a[1], 2)
            if is_num(m):
                byi[m.a[0]] = co
            else:
                return rep.unknown('step', show(d)[:200], w)
        else:
            return rep.unknown('step', show(d)[:200], w)
    for i, co in byi.items():
        rep.judge('chunk%d' % i, co == {0: 256, 1: 1}.get(i), 'byte %d of a pair weighs %d' % (i, co), w)
