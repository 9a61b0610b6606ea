"""Obligations on the name helpers (wire form of a name, label count, trailing labels), shared by the rules whose
property depends on them."""
from base import *
from points import Points, agree


def _run(ctx, rep, key, tag):
    fs = ctx.fns(key)
    if not fs:
        rep.unknown(tag, 'no function %s (inlined where it is used)' % key)
        return None
    r = ctx.run(fs[0])
    if not r.ok or r.unmod():
        rep.unknown(tag, r.why or 'unmodelled %s' % sorted(r.unmod())[:3], fs[0]['span'])
        return None
    return r


def text_of(r, i):
    """Candidate terms for the text of parameter i."""
    p = r.p(i)
    return (p, mk('fld', p, '0'), lower(p), lower(mk('fld', p, '0')))


def root_case(c, texts):
    """Whether the conjunction says the name is the root: True/False/None."""
    for t, q in c.d.items():
        if t.op == 'eq' and any(x in texts for x in t.a) and byts(b'.') in t.a:
            return q.single() == 1 if q.single() is not None else None
    return None


def write_name(ctx, rep):
    """Appends 0 for the root, else for each '.'-separated part its length byte and its bytes."""
    tag = 'name:wire'
    r = _run(ctx, rep, 'write_name', tag)
    if r is None:
        return
    w = r.f['span']
    for f in ctx.fns('write_name')[1:]:
        r2 = ctx.run(f)
        if r2.ok and not r2.unmod():
            _write_name(rep, r2, tag, w)
    _write_name(rep, r, tag, w)


def _hash_state(o):
    while o is not None and o.op == 'agg' and len(o.a[2]) == 1:
        o = o.a[2][0]
    return o


def _write_name(rep, r, tag, w):
    texts = text_of(r, 1)
    for st, v in r.rets:
        o = _hash_state(r.out(st, 0))
        if o is None:
            rep.unknown(tag, 'no output', w)
            continue
        for c in st.facts:
            root = root_case(c, texts)
            ps = parts(o)
            if root:
                rep.judge(tag + ':root', len(ps) == 2 and ps[1].op == 'bytes' and ps[1].a[0] == b'\0' or (None if any(x in r.I.phis for x in ps) else False),
                          'the root is written as %s' % show(o)[:100], w)
                continue
            inc = r.phi(ps[0])
            if inc is None:
                rep.unknown(tag, 'written as %s' % show(o)[:160], w)
                continue
            tail = ps[1:]
            for v2, fs in inc:
                q = parts(v2)
                if q[0] is not ps[0]:
                    if len(q) > 1:
                        rep.unknown(tag, 'starts with %s' % show(v2)[:100], w)
                    continue
                dom = [x for x in subterms(v2) if x.op == 'part']
                if not dom or dom[0].a[0].op != 'split' or dom[0].a[0].a[0] != 'split':
                    if dom and dom[0].a[0].a[0] in ('rsplit',):
                        rep.bad(tag, 'labels are not written in order: %s' % show(dom[0])[:100], w)
                    else:
                        rep.unknown(tag, show(v2)[:160], w)
                    continue
                p = dom[0]
                src = p.a[0].a[1]
                if src not in texts or p.a[0].a[-1] is not byts(b'.'):
                    rep.unknown(tag, 'splits %s' % show(p.a[0])[:100], w)
                    continue
                want = [ps[0], mk('be', 8, wrap(8, seqlen(p))), p]
                alt = [ps[0], be(8, wrap(8, seqlen(p))), p]
                ok_ = q == want or q == alt
                if tail:
                    rep.unknown(tag, 'ends with %s' % [show(x)[:40] for x in tail], w)
                    continue
                if not ok_ and agree(q[1:], want[1:]):
                    ok_ = None
                rep.judge(tag, ok_, 'each label is written as %s' % [show(x)[:80] for x in q[1:]], w)
                done_ = any(t.op == 'done' and t.a[0] is p.a[0] and z.single() == 1 for t, z in c.d.items())
                rep.judge(tag + ':all', done_, 'all labels are written', w)
                for c2 in fs:
                    if any(t.op == 'kept' for t in c2.d):
                        rep.bad(tag + ':all', 'some labels are skipped', w)


LONG = [b'.'.join([b'x' * 63] * 3) + b'.org.', b'.'.join([b'x' * 63] * 3) + b'.example.com.', b'a.' * 120 + b'com.', b'a.' * 127]
NAMES = LONG + [b'.', b'a.', b'com.', b'example.com.', b'a.b.c.', b'*.example.com.', b'x.y.z.example.com.', b'1.2.3.4.5.6.7.8.9.']


def split_eval(t, env, ev):
    """The value of part(split(kind, s, [n,] sep), i)."""
    sp, i = t.a
    kind, s = sp.a[0], ev(sp.a[1])
    sep = ev(sp.a[-1])
    if kind == 'split':
        xs = s.split(sep)
    elif kind == 'rsplit':
        xs = s.split(sep)[::-1]
    elif kind == 'splitn':
        n = ev(sp.a[2])
        xs = s.split(sep, n - 1) if n > 0 else []
    elif kind == 'rsplitn':
        n = ev(sp.a[2])
        xs = s.rsplit(sep, n - 1)[::-1] if n > 0 else []
    else:
        raise NoVal(kind)
    if i.op == 'lastidx':
        k = len(xs) - 1
    else:
        k = ev(i)
    if not 0 <= k < len(xs):
        raise NoVal('part')
    return xs[k]


def canon(a, b):
    """Canonical order of two names: -1, 0, 1."""
    x, y = [p.split(b'.')[::-1] for p in (a.lower(), b.lower())]
    return (x > y) - (x < y)


NOPS = {'nsecord': lambda go, x: canon(go(x.a[0]), go(x.a[1])), 'inzone': lambda go, x: int(below(go(x.a[0]), go(x.a[1]))), 'discr': lambda go, x: discr_of(go, x),
        'nlabels': lambda go, x: nl(go(x.a[0])), 'lexlt': lambda go, x: int(go(x.a[0]) < go(x.a[1]))}


def discr_of(go, x):
    if x.a[0].op in ('nsecord', 'cmp3'):
        return go(x.a[0])
    raise NoVal('discr')


def nev(t, env):
    """evalt with splits, character counts, quantified facts over text and the name helpers."""
    P = Points(None)
    P.ops = dict(P.ops, **NOPS)

    def pre(x):
        for y in subterms(x):
            if y in env:
                continue
            if y.op == 'part':
                try:
                    env[y] = split_eval(y, env, lambda z: nev(z, env))
                except NoVal:
                    if not any(z.op == 'elem' and z not in env for z in subterms(y)):
                        raise
            elif y.op == 'chars':
                env[y] = nev(y.a[0], env)
            elif y.op == 'count' and y.a[0].op == 'over':
                s = nev(y.a[0].a[0], env)
                n = 0
                for j, ch in enumerate(s):
                    for alt in y.a[1]:
                        okk = True
                        for k, z in alt:
                            es = [q for q in subterms(k) if q.op == 'elem']
                            e2 = dict(env)
                            for q in es:
                                e2[q] = j
                            if not z.has(nev(k, e2)):
                                okk = False
                        if okk:
                            n += 1
                            break
                env[y] = n
    pre(t)
    return P.value(t, env)


def at(facts, env):
    res = False
    for c in facts:
        v = True
        for t, s in c.d.items():
            try:
                if not s.has(nev(t, dict(env))):
                    v = False
                    break
            except NoVal:
                v = None if v is True else v
        if v is True:
            return True
        if v is None:
            res = None
    return res


def tabulate(rep, r, tag, pts, want, outcome, what):
    """The extracted closed form at the points env: the outcome of the (only) return whose facts hold there."""
    w = r.f['span']
    n = 0
    for env, key in pts:
        got = []
        try:
            for st, v in r.rets:
                h = at(st.facts, env)
                if h is None:
                    return rep.unknown(tag, 'guards not in closed form: %s' % str(st.facts)[:160], w)
                if h:
                    got.append(outcome(v, env))
        except (NoVal, IndexError, TypeError) as e:
            return rep.unknown(tag, 'not in closed form: %s' % str(e)[:80], w)
        if len(set(got)) != 1:
            return rep.unknown(tag, '%d outcomes at %s' % (len(set(got)), key), w)
        n += 1
        if got[0] != want(key):
            return rep.bad(tag, '%s of %s is %s, not %s' % (what, key, got[0], want(key)), w)
    rep.good(tag, '%s: extracted form agrees at %d points' % (what, n), w)


def nl(s):
    return 0 if s == b'.' else s.count(b'.')


def last_labels(s, n):
    k = nl(s)
    if n > k:
        return None
    if n == k:
        return s
    if n == 0:
        return b'.'
    return b'.'.join(s.split(b'.')[k - n:])


def labels(ctx, rep):
    r = _run(ctx, rep, 'Name::labels', 'name:labels')
    if r is None:
        return
    x = mk('fld', r.p(0), '0')
    tabulate(rep, r, 'name:labels', [({x: s, seqlen(x): len(s)}, s) for s in NAMES], nl, lambda v, e: nev(v, dict(e)), 'the label count')


def tnl(ctx, rep):
    r = _run(ctx, rep, 'Name::trailing_n_labels', 'name:trailing')
    if r is None:
        return
    x, n = mk('fld', r.p(0), '0'), r.p(1)
    pts = [({x: s, n: k, seqlen(x): len(s), mk('nlabels', x): nl(s)}, (s, k)) for s in NAMES for k in [*range(0, 11), 63, 64, 100, 120, 121, 122, 126, 127, 128, 200, 255]]

    def outcome(v, env):
        if is_none(v):
            return None
        if is_some(v):
            return bytes(nev(pay(v), dict(env)))
        raise NoVal('shape')
    tabulate(rep, r, 'name:trailing', pts, lambda k: last_labels(*k), outcome, 'the last n labels')


def name_len(ctx, rep):
    """The sum over labels of 1 + length; 1 for the root."""
    tag = 'name:len'
    r = _run(ctx, rep, 'name_len', tag)
    if r is None:
        return
    w = r.f['span']
    texts = text_of(r, 0)
    for st, v in r.rets:
        for c in st.facts:
            if root_case(c, texts):
                rep.judge(tag + ':root', v is num(1) or (False if is_num(v) else None), 'the root counts %s' % show(v)[:60], w)
                continue
            x = v.a[1] if v.op == 'wrap' else v
            k, ps = lin_parts(x)
            phis = [p for p in ps if r.phi(p) is not None]
            if x in texts or seqlen(texts[0]) in ps or seqlen(texts[1]) in ps:
                # a wire name of n characters (with the final dot) has n + 1 bytes
                L = seqlen(texts[1]) if seqlen(texts[1]) in ps else seqlen(texts[0])
                rep.judge(tag, k == 1 and ps == {L: 1}, 'counts %s' % show(v)[:80], w)
                continue
            if len(phis) != 1 or len(ps) != 1 or ps[phis[0]] != 1:
                rep.unknown(tag, show(v)[:120], w)
                continue
            inc = r.phi(phis[0])
            base = [y for y, _ in inc if phis[0] not in lin_parts(y)[1]]
            b0 = base[0].a[0] if len(base) == 1 and is_num(base[0]) else None
            for y, fs in inc:
                k2, p2 = lin_parts(y)
                if phis[0] not in p2:
                    continue
                q = [z for z in p2 if z.op == 'len' and z.a[0].op == 'part']
                okk = p2[phis[0]] == 1 and len(p2) == 2 and len(q) == 1 and p2[q[0]] == 1 and k2 == 1
                dom_ok = q and q[0].a[0].a[0].a[0] in ('split', 'rsplit') and q[0].a[0].a[0].a[1] in texts
                if not dom_ok or b0 is None:
                    rep.unknown(tag, show(y)[:120], w)
                else:
                    rep.judge(tag, okk and b0 + k == 0, 'counts %s per label from %d' % (show(y)[:80], b0 + k), w)


def all_helpers(ctx, rep, *which):
    for h in which or (write_name, labels, tnl, name_len):
        h(ctx, rep)


ZONES = [b'.', b'com.', b'example.com.', b'a.example.com.', b'b.a.example.com.', b'notexample.com.', b'ample.com.', b'm.', b'om.', b'xcom.',
         b'com.example.com.', b'x.com.com.', b'example.org.', b'x.notexample.com.', b'a.b.', b'b.', b'ab.', b'-example.com.', b'a-example.com.', b'_x.example.com.'] + LONG


def below(n, z):
    return z == b'.' or n == z or n.endswith(b'.' + z)


def pair_env(a, b, x, y):
    return {a: x, b: y, seqlen(a): len(x), seqlen(b): len(y), mk('nlabels', a): nl(x), mk('nlabels', b): nl(y)}


def in_zone(ctx, rep):
    """name_in_zone's body, in closed form, against the label-boundary rule."""
    fs = ctx.fns('name_in_zone')
    if not fs:
        return rep.unknown('name:in-zone', 'no function name_in_zone')
    for f in fs:
        r = ctx.run(f)
        if not r.ok or r.unmod():
            rep.unknown('name:in-zone', r.why or 'unmodelled', f['span'])
            continue
        A, B = text_of(r, 0), text_of(r, 1)
        pts = []
        glued = [(bytes([k]) + z, z) for k in b'-_*0129amzAMZ' for z in (b'example.com.', b'com.')] + [(b'a' + bytes([k]) + z, z) for k in b'-_09zZ' for z in (b'example.com.', b'com.', b'b.c.')]
        for x, y in [(x, y) for x in ZONES for y in ZONES] + glued:
            env = {}
            for a in A:
                for b in B:
                    env.update(pair_env(a, b, x, y))
            pts.append((env, (x, y)))
        tabulate(rep, r, 'name:in-zone', pts, lambda k: int(below(*k)), lambda v, e: int(nev(v, dict(e))), 'whether a name is in a zone')


def in_zone_implied(r, c, a, b):
    """Whether the facts say name a is at or below name b: True, or the pair of names that shows it is not, or None."""
    if a is b or F.cset(c, mk('inzone', a, b)).single() == 1:
        return True
    if F.cset(c, eq(a, b)).single() == 1 or F.cset(c, eq(b, byts(b'.'))).single() == 1:
        return True
    fs = [(t, s) for t, s in c.d.items() if any(x is a or x is b for x in subterms(t))]
    wit, used = None, False
    for x in ZONES:
        for y in ZONES:
            if below(x, y):
                continue
            ok_ = True
            for t, s in fs:
                try:
                    v = nev(t, pair_env(a, b, x, y))
                except (NoVal, TypeError, IndexError):
                    continue
                used = True
                if not s.has(v):
                    ok_ = False
                    break
            if ok_ and wit is None:
                wit = (x, y)
    if wit is None:
        return True
    if any(t.op == 'inzone' or (any(x is a for x in subterms(t)) and any(x is b for x in subterms(t)) and not _evaluable(t, a, b)) for t, s in fs):
        return wit if not any(t.op != 'inzone' and any(x is a for x in subterms(t)) and any(x is b for x in subterms(t)) and not _evaluable(t, a, b) for t, s in fs) else None
    return wit


def _evaluable(t, a, b):
    try:
        nev(t, pair_env(a, b, b'a.com.', b'com.'))
        return True
    except (NoVal, TypeError, IndexError):
        return False


BYTES = (0, 32, 45, 46, 48, 57, 64, 65, 66, 77, 89, 90, 91, 95, 96, 97, 98, 109, 121, 122, 123, 126, 127, 200, 255)


LABELS = (b'a', b'A', b'b', b'B', b'ab', b'aB', b'z', b'Z', b'*', b'_x', b'-', b'0', b'az', b'a-', b'ZZ')
LOPS = {'lexlt': lambda go, x: int(go(x.a[0]) < go(x.a[1])), 'upper': lambda go, x: go(x.a[0]).upper(), 'cmp3': lambda go, x: (go(x.a[-2]) > go(x.a[-1])) - (go(x.a[-2]) < go(x.a[-1]))}


def _low(b):
    return b + 32 if 65 <= b <= 90 else b


def nsec_ord(ctx, rep):
    """Canonical name order: labels from the last to the first, each compared as lower-cased bytes, shorter first."""
    tag = 'nsec-order'
    fs = ctx.fns('nsec_ord')
    if not fs:
        return rep.unknown(tag, 'no function nsec_ord')
    for f in fs:
        r = ctx.run(f)
        if not r.ok or r.unmod():
            rep.unknown(tag, r.why or 'unmodelled', f['span'])
            continue
        _nsec_ord(rep, r, tag, f['span'])


def _nsec_ord(rep, r, tag, w):
    side = {}
    for i in (0, 1):
        for t in text_of(r, i):
            side[t] = i
            side[lower(t)] = i

    def stream_side(t):
        """(kind, side): which of the two names' labels (or label bytes) an iterator yields; None if not understood."""
        if t.op == 'seqit':
            t = t.a[0]
        if t.op == 'split':
            s = side.get(t.a[1])
            if s is None or t.a[-1] is not byts(b'.') or t.a[0] not in ('split', 'rsplit'):
                return None
            return ('labels' if t.a[0] == 'rsplit' else 'forward', s)
        if t.op == 'lower':
            t = t.a[0]
        if t.op == 'part':
            k = stream_side(t.a[0])
            return None if k is None else ('bytes' if k[0] == 'labels' else 'forward', k[1])
        if t.op == 'chars':
            return stream_side(t.a[0])
        return None

    def classify(c):
        dn, other = set(), []
        for t, q in c.d.items():
            if t.op == 'done':
                k = stream_side(t.a[0])
                if k is None or t.a[1] or q.single() != 1:
                    return None
                dn.add(k)
            else:
                other.append((t, q))
        by = {}
        for t, _ in other:
            for x in subterms(t):
                if x.op == 'idx':
                    k = stream_side(x.a[0])
                    if k is None:
                        return None
                    by[x] = k
        return dn, other, by

    def pairs(cl, extra=()):
        """(a, b) byte pairs the facts allow, with the environment."""
        dn, other, by = cl
        by = dict(by)
        for e in extra:
            for x in subterms(e):
                if x.op == 'idx':
                    k = stream_side(x.a[0])
                    if k is None:
                        raise NoVal('byte')
                    by[x] = k
        xs = list(by)
        if len([x for x in xs if by[x][1] == 0]) > 1 or len([x for x in xs if by[x][1] == 1]) > 1:
            raise NoVal('several bytes')
        es = [(t, q) for t, q in other if any(x in by for x in subterms(t)) and not (t.op == 'le0' and any(y.op == 'elem' for y in lin_parts(t.a[0])[1]))]
        low = {by[x][1] for x in xs if any(y.op == 'lower' for y in subterms(x))}
        out = []
        for a in BYTES:
            for b in BYTES:
                if (0 in low and a != _low(a)) or (1 in low and b != _low(b)):
                    continue
                env = {x: (a, b)[by[x][1]] for x in xs}
                if all(q.has(evalt(t, env)) for t, q in es):
                    out.append((a, b, env))
        return out
    def whole(c, extra=()):
        """Pairs of sample labels the facts about whole labels allow: [(a, b, env)]; None when there are no such facts."""
        es = [(t, q) for t, q in c.d.items() if t.op in ('lexlt', 'eq', 'cmp3') and any(x.op == 'part' for x in subterms(t))]
        es = [(t, q) for t, q in es if not any(x.op == 'idx' for x in subterms(t))]
        extra = [t for t in extra if not any(x.op == 'idx' for x in subterms(t))]
        ps = {x for t in [t for t, _ in es] + list(extra) for x in subterms(t) if x.op == 'part'}
        if not ps or not es and not extra:
            return None
        sd = {x: stream_side(x) for x in ps}
        if any(k is None for k in sd.values()) or sorted(k[1] for k in sd.values()) != [0, 1]:
            raise NoVal('labels')
        out = []
        for a in LABELS:
            for b in LABELS:
                env = {x: (a, b)[sd[x][1]] for x in ps}
                if all(q.has(evalt(t, env, LOPS)) for t, q in es):
                    out.append((a, b, env))
        return out
    n = 0
    fwd = False
    try:
        for st, v in r.rets:
            for c in st.facts:
                cl = classify(c)
                if cl is None:
                    return rep.unknown(tag, 'not understood: %s' % str(c)[:200], w)
                dn, other, by = cl
                if any(k[0] == 'forward' for k in dn | set(by.values())):
                    fwd = True
                n += 1
                if v.op == 'agg' and not v.a[2]:
                    o = v.a[1] - 1
                    if o == 0:
                        rep.judge(tag + ':equal', {s for k, s in dn if k in ('labels', 'forward')} == {0, 1}, 'equal only when both names are used up', w)
                        continue
                    end = {k for k in dn if k[0] in ('labels', 'forward')} or {k for k in dn if k[0] == 'bytes'}
                    if end:
                        ls = {s for _, s in end}
                        # the name (or label) that ends first is the smaller one
                        want = {frozenset({0}): -1, frozenset({1}): 1}.get(frozenset(ls))
                        if want is None:
                            return rep.unknown(tag, 'both end in %s' % str(c)[:160], w)
                        rep.judge(tag + ':prefix', want == o, 'the %s sorts first' % ('shorter' if want == o else 'longer'), w)
                        continue
                    lab = whole(c)
                    if lab is not None:
                        bad = next(((a, b) for a, b, _ in lab if (a.lower() > b.lower()) - (a.lower() < b.lower()) != o), None)
                        if bad:
                            return rep.bad(tag + ':byte', 'label %s against %s gives %d' % (bad[0].decode(), bad[1].decode(), o), w)
                        rep.good(tag + ':byte', 'labels compared in lower case', w)
                        continue
                    if not by:
                        raise NoVal('no byte or label compared')
                    for a, b, env in pairs(cl):
                        la, lb = _low(a), _low(b)
                        if (la > lb) - (la < lb) != o:
                            rep.bad(tag + ':byte', 'byte %d against %d gives %d' % (a, b, o), w)
                            return
                    rep.good(tag + ':byte', 'bytes compared in lower case', w)
                elif v.op == 'cmp3' and whole(c, v.a[1:]) is not None:
                    for a, b, env in whole(c, v.a[1:]):
                        x, y = evalt(v.a[1], env, LOPS), evalt(v.a[2], env, LOPS)
                        la, lb = a.lower(), b.lower()
                        if (x > y) - (x < y) != (la > lb) - (la < lb) or la == lb:
                            return rep.bad(tag + ':byte', 'label %s against %s is compared as %s against %s' % (a.decode(), b.decode(), x, y), w)
                    rep.good(tag + ':byte', 'labels compared in lower case', w)
                elif v.op == 'cmp3':
                    for a, b, env in pairs(cl, v.a[1:]):
                        x, y = evalt(v.a[1], env), evalt(v.a[2], env)
                        la, lb = _low(a), _low(b)
                        if (x > y) - (x < y) != (la > lb) - (la < lb) or la == lb:
                            rep.bad(tag + ':byte', 'byte %d against %d is compared as %d against %d' % (a, b, x, y), w)
                            return
                    rep.good(tag + ':byte', 'bytes compared in lower case', w)
                else:
                    return rep.unknown(tag, show(v)[:160], w)
        for _, (blocks, states) in r.I.loops.items():
            for s in states:
                for c in s.facts:
                    cl = classify(c)
                    if cl is None:
                        return rep.unknown(tag, 'not understood: %s' % str(c)[:200], w)
                    dn, other, by = cl
                    lab = whole(c)
                    if lab is not None:
                        bad = next(((a, b) for a, b, _ in lab if a.lower() != b.lower()), None)
                        if bad:
                            return rep.bad(tag + ':byte', 'goes on after the different labels %s and %s' % (bad[0].decode(), bad[1].decode()), w)
                        rep.good(tag + ':next', 'goes on only after equal labels', w)
                        continue
                    if by and not any(k == 'bytes' for k, _ in dn):
                        for a, b, env in pairs(cl):
                            if _low(a) != _low(b):
                                return rep.bad(tag + ':byte', 'goes on after the different bytes %d and %d' % (a, b), w)
                        rep.good(tag + ':next', 'goes on only after equal bytes', w)
                    elif dn:
                        rep.judge(tag + ':next', {s for k, s in dn if k == 'bytes'} == {0, 1} or (None if fwd else False), 'goes on to the next label only after equal labels', w)
    except (NoVal, TypeError) as e:
        return rep.unknown(tag, 'not in closed form: %s' % str(e)[:100], w)
    if fwd:
        rep.bad(tag, 'labels are compared from the first one', w)
    elif n:
        rep.good(tag, 'labels are compared from the last one', w)


def counter(c, vars, wrong, skip=lambda t: False):
    """A counterexample to a relation between several terms: values for them at which every fact of c that speaks of two
    of them holds and wrong(values) too.  vars: [(terms that denote the value, sample values)].  False if the samples have
    none, None if a fact that relates two of them (or ties them to each other through a third term) is not in closed form."""
    sets = [set(ts) for ts, _ in vars]
    for i, ts in enumerate(sets):
        todo = list(ts)
        while todo:
            x = todo.pop()
            for k, q in c.d.items():
                if k.op == 'eq' and q.single() == 1 and any(y is x for y in k.a):
                    for y in k.a:
                        if y not in ts and not any(y in o for j, o in enumerate(sets) if j != i):
                            ts.add(y)
                            todo.append(y)
    facts = []
    for t, q in c.d.items():
        if skip(t):
            continue
        sub_ = set(subterms(t))
        k = [i for i, ts in enumerate(sets) if sub_ & ts]
        if k:
            facts.append((t, q, k))
    import itertools
    dead = set()
    for vals in itertools.product(*[v for _, v in vars]):
        if not wrong(*vals):
            continue
        env = {}
        for ts, v in zip(sets, vals):
            for t in ts:
                env[t] = v
                if isinstance(v, bytes):
                    env[seqlen(t)] = len(v)
                    env[mk('nlabels', t)] = nl(v)
        good = True
        for t, q, k in facts:
            if t in dead:
                continue
            try:
                if not q.has(nev(t, dict(env))):
                    good = False
                    break
            except (NoVal, TypeError, IndexError, AttributeError):
                if len(k) > 1:
                    return None
                dead.add(t)
        if good:
            return vals
    return False
