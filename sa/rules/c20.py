"""Wire names decode faithfully and with bounded work.

The decoder's step is extracted from its body: what is appended to the name and how far the input moves for a label,
under which conditions, what ends the name, and where and how deep a compression pointer leads.  Offsets and label
lengths are tabulated over every value of the bytes they are made of.
"""
RULE = 'extracted step, end and pointer forms of the name decoder, tabulated over length and pointer bytes; depth argument of every recursive call'
from base import *
from points import Points
import names
import term


def check(ctx, rep):
    P = ctx.prog()
    nm = adt_path(P, 'rr::Name')
    roots = rep.need('parse_rr_stream')
    if nm is None:
        return rep.bad('anchor:Name', 'name type not found')
    es = [f for f in P.fns if 'body' in f and f['body']['argc'] == 2 and is_entry(P, f, nm)]
    rep.floor('name decoders', len(es), 1, hard=False)
    for f in es:
        r = ctx.run(f)
        w = f['span']
        if not r.ok or r.unmod():
            rep.unknown('decoder', r.why or 'unmodelled %s' % sorted(r.unmod())[:3], w)
            continue
        decoder(rep, r, w)
        for g in {e.name for e in r.evs if e.kind == 'rec'}:
            for h in [x for x in P.fns if 'body' in x and x['path'].endswith(g)]:
                r2 = ctx.run(h)
                if not r2.ok or r2.unmod():
                    rep.unknown('pointer', r2.why or 'unmodelled', h['span'])
                else:
                    for i, k in recursion(rep, r2, h):
                        # what is left of the limit at the first call from the decoder
                        for e in r.evs:
                            if e.kind == 'rec' and e.name == g and i < len(e.args) and is_num(e.args[i]):
                                n = e.args[i].a[0] // k + 1
                                rep.judge('pointer:chain', n >= 126, 'chains of %d pointers are followed' % n, w)
    packets(ctx, rep, P, roots)
    fs = term.reach(ctx, roots)
    term.judge(ctx, rep, [f for f in fs], 'ends')


def is_entry(P, f, nm):
    ret = P.types[f['body']['locals'][0]]
    s = sig(P, f)[0]
    return ret.get('p', '').endswith('result::Result') and ret.get('a') and P.types[ret['a'][0]].get('p') == nm and \
        sorted(s) == ['&[u8]', '&mut &[u8]']


def decoder(rep, r, w):
    """The function that turns wire bytes into a name: its loop appends one label per pass."""
    acc = [p for p, inc in r.I.phis.items() if any(parts(v)[:1] == [p] and len(parts(v)) > 1 for v, _ in inc)]
    n = 0
    taken, sure = iset(), True
    for N in acc:
        for v, fs in r.I.phis[N]:
            q = parts(v)
            if q[:1] != [N]:
                if v is not NIL and v.op != 'param':
                    rep.unknown('start', show(v)[:120], w)
                continue
            if v is N:
                continue
            k = label(rep, r, N, q[1:], fs, w)
            n += k
            b = first_byte(q[1:]) if k else None
            if b is None:
                sure = False
            else:
                for c in fs:
                    taken = iunion(taken, F.cset(c, b))
    if not n:
        rep.unknown('label', 'no step that appends a label', w)
    else:
        miss = [k for k in range(1, 64) if not taken.has(k)]
        rep.judge('label:lengths', not miss if sure else None, 'labels of 1 to 63 bytes are taken' if not miss else 'a label of %d bytes is never taken' % miss[0], w)
    pointers(rep, r, w)
    refusals(rep, r, acc, w)
    refused_pointers(rep, r, acc, w)
    for st, v in r.rets:
        if is_ok(v):
            result(rep, r, st, v, acc, w)


def first_byte(q):
    if len(q) == 2 and q[0].op == 'slice':
        return idx(q[0].a[0], num(0))
    return None


def pointers(rep, r, w):
    """Every two-byte pointer is followed."""
    es = [e for e in r.evs if e.kind == 'rec']
    z, n = iset(), 0
    for e in es:
        src = rec_args(r, e)
        if src is None or src[0].op != 'slice':
            return
        bs = [y for y in subterms(src[0].a[1]) if y.op == 'idx' and y.a[1] is num(0)]
        if len(set(bs)) != 1:
            return
        for c in e.facts:
            z = iunion(z, F.cset(c, bs[0]))
            n += 1
    if n:
        miss = [k for k in range(192, 256) if not z.has(k)]
        rep.judge('pointer:all', not miss, 'every pointer is followed' if not miss else 'a pointer that starts with byte %d is not followed' % miss[0], w)


def refusals(rep, r, acc, w):
    """A name is refused for a reason: something besides the value of its first byte."""
    for st, v in r.rets:
        if not is_err(v):
            continue
        for c in st.facts:
            heads = {x.a[0] for x in c.d if x.op == 'idx' and x.a[1] is num(0)}
            if any(x.op in ('idx', 'len') and len(heads) == 1 and x.a[0] in heads or any(x is seqlen(N) for N in acc) for x in c.d):
                rest = [x for x in c.d if not (x.op in ('idx', 'len') and x.a[0] in heads and (x.op == 'len' or x.a[1] is num(0)))]
                S = next(iter(heads)) if len(heads) == 1 else None
                if S is None or rest:
                    continue
                z = F.cset(c, idx(S, num(0)))
                good = [k for k in list(range(0, 64)) + list(range(192, 256)) if z.has(k)]
                hi = F.cset(c, seqlen(S)).hi()
                if good and (hi is None or hi > 256):
                    rep.bad('refused', 'a name is refused because of its byte %d alone' % good[0], w)


def refused_pointers(rep, r, acc, w):
    """A pointer to inside the packet is refused only for what it leads to."""
    D = r.arg(1)
    for st, v in r.rets:
        if not is_err(v):
            continue
        for c in st.facts:
            heads = {y.a[0] for x in c.d for y in subterms(x) if y.op == 'idx' and y.a[1] is num(0)}
            if len(heads) != 1 or any(y.op in ('rec', 'cut') for x in c.d for y in subterms(x)):
                continue
            S = heads.pop()
            z = F.cset(c, idx(S, num(0)))
            if z.lo() < 192 or not any(y is idx(S, num(1)) for x in c.d for y in subterms(x)):
                continue
            left = [y for x in c.d for y in subterms(x) if y.op == 'len' and y.a[0] is not S and y.a[0] is not D]
            ints = [y for x in c.d for y in subterms(x) if y.op == 'param' and y is not D]
            for b0, b1, k, n, more in ((b0, b1, k, n, more) for b0 in (192, 193, 200, 255) for b1 in (0, 1, 5, 11, 12, 13, 29, 128, 255)
                                       for k in (0, 1, 9, 200) for n in (2, 3, 300) for more in (1, 2, 40)):
                off = (b0 & 63) << 8 | b1
                env = {idx(S, num(0)): b0, idx(S, num(1)): b1, seqlen(S): n, mk('len', S): n, mk('len', D): off + more}
                env.update({y: k for y in left})
                env.update({y: 9 for y in ints})
                if facts_at([c], env):
                    rep.bad('pointer:refused', 'with %d bytes of name before it, a pointer to offset %d of a packet of %d bytes is refused' % (k, off, off + more), w)
                    return
    rep.good('pointer:refused', 'a pointer is refused only when it leads outside the packet or to no name', w)


def changed_label(r, N, q, fs):
    """A label that is taken and comes out as another text."""
    ts = {y for x in q for y in subterms(x) if y.op == 'slice' and not any(z is not y and y in subterms(z) and z.op == 'slice' for x2 in q for z in subterms(x2))}
    if len(ts) != 1:
        return None
    T = ts.pop()
    pt = Points(r)
    pt.ops.update(strfn=names.strfn)
    for s in (b'a', b' a', b'a ', b'-a', b'a-', b'_a', b'*', b'a1', b'0', b'xn--a', b'A', b'a_b', b'!'):
        S = T.a[0]
        env = {S: bytes([len(s)]) + s + b'\1b\0', seqlen(S): len(s) + 4, N: b'x.', seqlen(N): 2}
        try:
            got = pt.value(ext(q[0], q[1]) if len(q) == 2 else q[0], env)
            cs = [F.Conj({t: k for t, k in c.d.items() if any(y in (S, N) for y in subterms(t))}) for c in fs]
            if got.lower() != s.lower() + (b'.' if len(q) == 2 else b'') and any(pt.at([c], env) is True for c in cs):
                return s, got
        except (NoVal, TypeError, ValueError):
            return None
    return None


def label(rep, r, N, q, fs, w):
    if len(q) == 1 and q[0].op == 'bytes' and q[0].a[0] not in (b'', b'.'):
        rep.bad('label:bytes', 'a label is decoded as %r whatever its bytes' % q[0].a[0], w)
        return 1
    if len(q) != 2 or q[0].op != 'slice' or q[1].op != 'bytes':
        odd = changed_label(r, N, q, fs)
        if odd:
            rep.bad('label:bytes', 'the label %r is decoded as %r' % odd, w)
            return 1
        rep.unknown('label', 'appends %s' % [show(x)[:80] for x in q], w)
        return 0
    rep.judge('label:dot', q[1].a[0] == b'.', 'each label is followed by %r' % q[1].a[0], w)
    S, lo, hi = q[0].a
    b = idx(S, num(0))
    if any(y.op == 'validto' for x in (lo, hi) for y in subterms(x)):
        rep.bad('label:text', 'a label that is not valid text is taken up to its first invalid byte', w)
        return 1
    try:
        bad = next((k for k in range(1, 64) if (evalt(lo, {b: k}), evalt(hi, {b: k})) != (1, 1 + k)), None)
        rep.judge('label:bytes', bad is None, 'exactly the counted bytes behind the length byte' if bad is None else 'a label of %d bytes is taken from bytes %d to %d' % (bad, evalt(lo, {b: bad}), evalt(hi, {b: bad})), w)
    except NoVal:
        rep.unknown('label:bytes', show(q[0])[:120], w)
    text = q[0]
    for c in fs:
        utf = F.cset(c, mk('strp', 'utf8', text)).single()
        rep.judge('label:text', True if utf == 1 else None, 'only valid text', w)
        dots = None
        for t, s in c.d.items():
            if t.op == 'exists' and t.a[0].op == 'over' and t.a[0].a[0] is text:
                for alt in t.a[1]:
                    ks = [(k, x) for k, x in alt if k.op != 'le0']
                    if len(ks) == 1 and ks[0][1].has(46) and s.single() == 0:
                        dots = True
        if dots is None:
            other = [t for t in c.d if t.op in ('exists', 'count', 'strfn', 'eq', 'find', 'opq') and any(y is text for y in subterms(t)) and t.op != 'strp']
            dots = None if other else False
        rep.judge('label:no-dot', dots, 'a label that contains "." is refused' if dots else 'a label that contains "." is taken', w)
    if S in r.I.phis:
        for nx, fs2 in r.I.phis[S]:
            if nx.op == 'slice' and nx.a[0] is S:
                at = {y for y in subterms(nx.a[1]) if y.op == 'idx'}
                try:
                    bad = next((k for k in range(1, 64) if evalt(nx.a[1], {b: k}) != 1 + k), None)
                    rep.judge('label:next', (nx.a[2] is seqlen(S) or None) if bad is None else False,
                              'the next label follows' if bad is None else 'after a label of %d bytes, %d are passed over' % (bad, evalt(nx.a[1], {b: bad})), w)
                except NoVal:
                    rep.unknown('label:next', show(nx)[:120], w)
    return 1


def result(rep, r, st, v, acc, w):
    x = pay(v)
    while x.op == 'agg' and len(x.a[2]) == 1:
        x = x.a[2][0]
    if x.op == 'lower':
        x = x.a[0]
    pointer = any(y.op == 'rec' for y in subterms(x))
    o = r.out(st, 0)
    if pointer:
        for c in st.facts:
            k = [t for t in c.d if t.op == 'discr' and t.a[0].op == 'rec' and c.d[t].single() == 0]
            other = [t for t in c.d if any(y.op == 'rec' and not str(y.a[0]).startswith('havoc') for y in subterms(t))]
            rep.judge('pointer:failed', True if k else None if other or not fallible(r) else False, 'a name is taken only if what its pointer leads to could be read', w)
    if not pointer:
        q = parts(x)
        if x is UNIT:
            return
        if x.op == 'bytes' and x.a[0] == b'.':
            return rep.good('end:root', 'an empty name is the root') if any({F.cset(c, seqlen(N)).single() for c in st.facts} == {0} for N in acc) else rep.unknown('end:root', 'the root', w)
        if not (q and q[0] in acc):
            return rep.unknown('end', show(x)[:120], w)
        N = q[0]
        n = seqlen(N)
        if len(q) == 2:
            try:
                a, b = evalt(q[1], {n: 0, N: b''}), [evalt(q[1], {n: k, N: b'x' * k}) for k in (1, 2, 5, 255)]
                rep.judge('end:root', a == b'.' and set(b) == {b''}, 'an empty name is the root, any other is as read' if a == b'.' and set(b) == {b''} else 'no labels give %r, labels are followed by %r' % (a, b[0]), w)
            except NoVal:
                rep.unknown('end:root', show(q[1])[:120], w)
        elif len(q) == 1:
            e = {F.cset(c, n).has(0) for c in st.facts}
            rep.judge('end:root', True not in e, 'the root is "."' if True not in e else 'a name without labels is left empty', w)
        if o is not None and o.op == 'slice' and o.a[0] in r.I.phis:
            S = o.a[0]
            z = {F.cset(c, idx(S, num(0))).single() for c in st.facts}
            rep.judge('end:used', True if o.a[1] is num(1) and o.a[2] is seqlen(S) and z == {0} else (False if z == {0} and is_num(o.a[1]) else None),
                      'the name ends with its zero byte', w)
        else:
            rep.unknown('end:used', show(o)[:120] if o is not None else 'none', w)
    elif o is not None and o.op == 'slice' and o.a[0] in r.I.phis:
        rep.judge('end:pointer', True if o.a[1] is num(2) and o.a[2] is seqlen(o.a[0]) else (False if is_num(o.a[1]) else None),
                  'a name ends with a pointer of two bytes' if o.a[1] is num(2) else 'a pointer takes %s bytes' % show(o.a[1])[:60], w)
    else:
        rep.unknown('end:pointer', show(o)[:120] if o is not None else 'none', w)
    for e in r.evs:
        if e.kind == 'rec':
            follow(rep, r, e, w)


def fallible(r):
    """Every function that calls itself here returns a Result."""
    for e in r.evs:
        if e.kind == 'rec':
            for f in r.P.fns:
                if f['full'] == e.name and 'body' in f and not r.P.types[f['body']['locals'][0]].get('p', '').endswith('result::Result'):
                    return False
    return True


def follow(rep, r, e, w):
    """One pointer: where it leads."""
    pk = [a for a in e.args if a is r.arg(1)]
    src = rec_args(r, e)
    if src is None:
        return rep.unknown('pointer', 'arguments %s' % [show(a)[:40] for a in e.args], w)
    inp = src[0]
    D = r.arg(1)
    off_ = [a for a in src[1:] if a.op == 'slice' and a.a[0] is D]
    rep.judge('pointer:packet', True if pk or D in src[1:] else (False if off_ else None), 'the packet is handed on' if not off_ else 'behind a pointer, offsets count from %s' % show(off_[0])[:80], w)
    if inp.op != 'slice' or inp.a[0] is not D:
        return rep.unknown('pointer', 'leads to %s' % show(inp)[:120], w)
    off = inp.a[1]
    bs = sorted({y for y in subterms(off) if y.op == 'idx'}, key=lambda y: y.a[1].a[0] if is_num(y.a[1]) else 99)
    if len(bs) != 2 or [y.a[1] for y in bs] != [num(0), num(1)]:
        return rep.unknown('pointer:offset', show(off)[:120], w)
    try:
        bad = next(((x, y) for x in range(192, 256) for y in (0, 1, 12, 127, 128, 255) if evalt(off, {bs[0]: x, bs[1]: y}) != (x & 63) << 8 | y), None)
        rep.judge('pointer:offset', bad is None, 'fourteen bits of offset' if bad is None else 'pointer %02x%02x leads to %d, not %d' % (bad + (evalt(off, {bs[0]: bad[0], bs[1]: bad[1]}), (bad[0] & 63) << 8 | bad[1])), w)
    except NoVal:
        rep.unknown('pointer:offset', show(off)[:120], w)
    rep.judge('pointer:to', inp.a[2] is seqlen(D) or None, 'to the end of the packet', w)
    for c in e.facts:
        z = F.cset(c, bs[0])
        odd = [k for k in range(1, 192) if z.has(k)]
        rep.judge('pointer:mark', not odd, 'only a byte from 192 up starts a pointer' if not odd else 'byte %d starts a pointer' % odd[0], w)
        ins = le_implied(c, off, seqlen(D))
        rep.judge('pointer:inside', True if ins else None, 'inside the packet', w)


def behind(k):
    """The number is at least one."""
    c, ps = lin_parts(k)
    return c >= 1 and all(v > 0 and (z.op in ('len', 'elem', 'idx', 'frombe') or z.op.startswith('namelen')) for z, v in ps.items())


def rec_args(r, e):
    """The values (not the references) a recursive call was made with."""
    for c in e.facts:
        for z in c.d:
            for y in subterms(z):
                if y.op == 'rec' and isinstance(y.a[2], tuple):
                    return list(y.a[2])
    for st, v in r.rets:
        for z in [v] + [t for c in st.facts for t in c.d]:
            for y in subterms(z):
                if y.op == 'rec' and len(y.a) > 2 and isinstance(y.a[2], tuple):
                    return list(y.a[2])
    return None


def recursion(rep, r, f):
    """A function that calls itself: some number it is given gets smaller each time and stops it at 0."""
    w = f['span']
    n = f['body']['argc']
    falls = set()
    for e in r.evs:
        if e.kind != 'rec':
            continue
        ok_ = None
        why = 'no argument is seen to limit the depth'
        for i, a in enumerate(e.args):
            if i >= n:
                break
            p = r.arg(i)
            turn = cycles(P_types(r, f, i), a, p, e.facts)
            if turn is not None:
                ok_ = False if ok_ is None else ok_
                why = 'parameter %d is %d again after %d' % (i, turn, turn)
                continue
            d = sub(a, p) if p.op == 'param' and a.op in ('lin', 'param', 'int') else None
            if d is None or not is_num(d):
                if p.op == 'param' and a.op in ('lin', 'param'):
                    pass
                continue
            T_ = r.P.types[f['body']['locals'][i + 1]]
            if T_['k'] != 'int':
                continue
            k = d.a[0]
            if k < 0 and all((F.cset(c, p).lo() or 0) >= -k for c in e.facts):
                ok_, why = True, 'parameter %d falls by %d and is checked' % (i, -k)
                falls.add((i, -k))
                break
            if k > 0 and all(F.cset(c, p).hi() is not None and F.cset(c, p).hi() < 1 << 16 for c in e.facts):
                ok_, why = True, 'parameter %d grows by %d up to a bound' % (i, k)
                break
            if k == 0 or k < 0:
                ok_ = False if ok_ is None else ok_
                why = 'parameter %d (%s) is handed on %s' % (i, T_['n'], 'unchanged' if k == 0 else 'without a check against running out')
        rep.judge('pointer:depth', ok_, '%s calls itself: %s' % (f['path'].split('::')[-1], why), w)
    return falls


def P_types(r, f, i):
    return r.P.types[f['body']['locals'][i + 1]]


def cycles(T_, a, p, facts):
    """A value of an integer parameter under which the call is made again with the same value."""
    if T_['k'] != 'int' or p.op != 'param' or a is p or not any(y is p for y in subterms(a)):
        return None
    for k in list(range(0, 40)) + [254, 255, 256]:
        try:
            if evalt(a, {p: k}) == k and any(F.cset(c, p).has(k) for c in facts):
                return k
        except NoVal:
            return None
    return None


# ---------------------------------------------------------------- which packet names may refer to
def packets(ctx, rep, P, roots):
    seen = 0
    for f in P.fns:
        if 'body' not in f or f.get('generic'):
            continue
        calls = False
        r = None
        if not any(x in f['path'] for x in ('ser::', 'query::', 'rr::')) and f not in (roots or []):
            continue
        if '{closure' in f['path'] or not reads(P, f):
            continue
        r = ctx.run(f)
        if not r.ok or r.unmod():
            continue
        ts = set()
        for st, v in r.rets:
            ts |= {y for y in subterms(v) if y.op in ('prr_rr', 'prr', 'rdname')}
            for c in st.facts:
                for t in c.d:
                    ts |= {y for y in subterms(t) if y.op in ('prr_rr', 'prr', 'rdname')}
        for ph, inc in r.I.phis.items():
            for v, fs in inc:
                ts |= {y for y in subterms(v) if y.op in ('prr_rr', 'prr', 'rdname')}
        stream = f in (roots or [])
        for t in ts:
            seen += 1
            pk = t.a[1]
            if stream:
                rep.judge('stream:no-pointers', pk is NIL or (False if pk.op in ('param', 'phi', 'slice') else None), 'a proof stream is read without a packet to point into' if pk is NIL else 'names of a proof stream may point into %s' % show(pk)[:60], f['span'])
            else:
                base = source(r, t.a[0])
                rep.judge('packet', True if pk is NIL or pk.op == 'param' or pk is base else False if pk.op == 'slice' and behind(pk.a[1]) else None, '%s: names point into %s' % (f['path'].split('::')[-1], show(pk)[:40]), f['span'])
    rep.floor('name and record reads', seen, 3, hard=False)


def reads(P, f):
    return any('read' in P.fns[i]['path'] or 'pars' in P.fns[i]['path'] for b in P.body(f).bbs for i in term.fn_ids(b, P.types))


def source(r, t, d=0):
    while t.op == 'slice':
        t = t.a[0]
    if t in r.I.phis and d < 5:
        bs = {source(r, v, d + 1) for v, _ in r.I.phis[t] if v is not t} - {t}
        bs = {b for b in bs if b is not t}
        if len(bs) == 1:
            return bs.pop()
    return t
