"""NSEC type bitmaps keep the same bit for the same type everywhere.

The constructor's store, the membership test, the JSON rendering and the two wire conversions are derived as closed
forms (per step for the loops), and tabulated: every type against byte t/8 and bit 0x80 >> t%8, every byte and bit of
the set against the type it renders as, every window number against its place in the set.
"""
RULE = 'extracted bit positions of constructor, membership test, rendering and wire windows, tabulated over types and windows'
from base import *
from points import Points
import names
from vs import early_all

MASK = [0x80 >> k for k in range(8)]
PROBE = sorted(set(range(0, 600)) | {x for k in range(9, 17) for x in range((1 << k) - 9, (1 << k) + 9) if x < 65536} | set(range(3, 65536, 251)))


def check(ctx, rep):
    P = ctx.prog()
    for key, fn in (('NSecTypeMask::from_types', make), ('NSecTypeMask::contains_type', test)):
        fs = rep.need(key)
        if fs:
            with_run(ctx, rep, fs[0], fn)
    n = 0
    for f in by_sig(ctx, ['&mut &[u8]'], 'core::result::Result<[u8; 8192], ()>') or by_key(ctx, 'read_nsec_types_bitmap'):
        n += with_run(ctx, rep, f, read)
    rep.floor('window readers', n, 1)
    n = 0
    for f in by_key(ctx, 'write_nsec_types_bitmap'):
        n += with_run(ctx, rep, f, write)
    rep.floor('window writers', n, 1)
    n = 0
    for f in by_key(ctx, 'NSecTypeMask::write_json'):
        n += with_run(ctx, rep, f, render)
    rep.floor('renderers', n, 1)


def by_key(ctx, k):
    return [f for f in ctx.fns(k) if 'body' in f]


def with_run(ctx, rep, f, fn):
    r = ctx.run(f)
    if not r.ok or r.unmod():
        rep.unknown(f['path'].split('::')[-1], r.why or 'unmodelled %s' % sorted(r.unmod())[:3], f['span'])
    else:
        fn(rep, r, f['span'])
    return 1


# ---------------------------------------------------------------- constructor
def make(rep, r, w):
    n = 0
    ts = r.arg(0)
    for st, v in r.rets:
        x = v.a[2][0] if v.op == 'agg' and len(v.a[2]) == 1 else v
        if x not in r.I.phis:
            rep.unknown('make', show(v)[:160], w)
            continue
        n += 1
        say_whole(rep, 'make:all', r, x, ts, 65536, 'the loop goes over all types', w)
        for inc, fs in r.I.phis[x]:
            if inc.op == 'rep':
                rep.judge('make:empty', inc.a[0] is num(0) and inc.a[1] is num(8192) or None, 'starts from the empty set', w)
                continue
            if inc is x:
                skip(rep, r, fs, ts, x, w)
                continue
            if inc.op != 'set' or inc.a[0] is not x:
                rep.unknown('make', show(inc)[:160], w)
                continue
            at = {y for y in subterms(inc) if y.op == 'idx' and y.a[0] is ts}
            old = {y for y in subterms(inc) if y.op == 'idx' and y.a[0] is x}
            if len(at) != 1:
                rep.unknown('make', show(inc)[:160], w)
                continue
            t = at.pop()
            bad = None
            try:
                for k in PROBE:
                    if evalt(inc.a[1], {t: k}) != k // 8 or any(evalt(y.a[1], {t: k}) != k // 8 for y in old):
                        bad = 'type %d goes to byte %d' % (k, evalt(inc.a[1], {t: k}))
                        break
                    for o in (0, 0x5a, 255):
                        env = {t: k}
                        env.update({y: o for y in old})
                        g = evalt(inc.a[2], env)
                        if g != o | MASK[k % 8]:
                            bad = 'type %d turns byte %#x into %#x' % (k, o, g)
                            break
                    if bad:
                        break
                rep.judge('make:bit', bad is None, 'type t sets bit 0x80>>(t%%8) of byte t/8 (%d types)' % len(PROBE) if bad is None else bad, w)
            except NoVal as e:
                rep.unknown('make:bit', str(e)[:120], w)
    rep.floor('constructor results', n, 1)


def skip(rep, r, fs, ts, x, w):
    """An iteration that leaves the set as it is: only for types already in it."""
    for c in fs:
        at = {y for t in c.d for y in subterms(t) if y.op == 'idx' and y.a[0] is ts}
        if len(at) != 1:
            rep.unknown('make:skip', 'a type may be left out under %s' % str(c)[:160], w)
            continue
        t = at.pop()
        old = {y for z in c.d for y in subterms(z) if y.op == 'idx' and y.a[0] is x}
        hit = None
        for k in PROBE:
            env = {t: k}
            env.update({y: 0 for y in old})
            v = facts_at([F.Conj({z: q for z, q in c.d.items() if any(y is t or y in old for y in subterms(z)) and z.op != 'done'})], env)
            if v is None:
                hit = None
                break
            hit = k if v and hit is None else hit
        else:
            rep.judge('make:skip', hit is None, 'left out only when already present' if hit is None else 'type %d is left out' % hit, w)
            continue
        rep.unknown('make:skip', 'a type may be left out under %s' % str(c)[:160], w)


# ---------------------------------------------------------------- membership
def test(rep, r, w):
    n = 0
    m, t = r.arg(0), r.arg(1)
    for st, v in r.rets:
        bs = {y for y in subterms(v) if y.op == 'idx'} | {y for c in st.facts for z in c.d for y in subterms(z) if y.op == 'idx'}
        bad = None
        hits = 0
        try:
            for k in PROBE:
                for o in [x for k_ in range(8) for x in (MASK[k_], 255 ^ MASK[k_])]:
                    env = {t: k}
                    env.update({y: o for y in bs})
                    f = facts_at(st.facts, env)
                    if f is False:
                        continue
                    if f is None:
                        raise NoVal('facts')
                    hits += 1
                    for y in bs:
                        if evalt(y.a[1], {t: k}) != k // 8:
                            bad = 'type %d is looked up in byte %d' % (k, evalt(y.a[1], {t: k}))
                    g = evalt(v, env)
                    if bool(g) != bool(o & MASK[k % 8]):
                        bad = 'type %d with byte %#x answers %s' % (k, o, bool(g))
                    if bad:
                        break
                if bad:
                    break
            n += bool(hits)
            rep.judge('test', bad is None, 'membership of t is bit 0x80>>(t%%8) of byte t/8 (%d types)' % len(PROBE) if bad is None else bad, w)
        except NoVal as e:
            rep.unknown('test', str(e)[:120], w)
    rep.floor('membership answers', n, 1)


# ---------------------------------------------------------------- wire windows, reading
def read(rep, r, w):
    n = 0
    lens, wins, acc = iset(), iset(), []
    for st, v in r.rets:
        if not is_ok(v):
            continue
        x = pay(v)
        if x not in r.I.phis:
            rep.unknown('read', show(v)[:160], w)
            continue
        n += 1
        acc.append(x)
        for inc, fs in r.I.phis[x]:
            if inc.op == 'rep':
                rep.judge('read:empty', inc.a[0] is num(0) and inc.a[1] is num(8192) or None, 'starts from the empty set', w)
                continue
            if inc is x:
                rep.unknown('read', 'a window that changes nothing', w)
                continue
            if inc.op != 'splice' or inc.a[0] is not x or inc.a[2].op != 'slice':
                rep.unknown('read', show(inc)[:200], w)
                continue
            S = inc.a[2].a[0]
            blk, ln = idx(S, num(0)), idx(S, num(1))
            lo, hi = inc.a[2].a[1], inc.a[2].a[2]
            try:
                bad = next((b for b in range(256) if evalt(inc.a[1], {blk: b, ln: 9}) != 32 * b), None)
                rep.judge('read:place', bad is None, 'window b goes to byte 32b' if bad is None else 'window %d goes to byte %d' % (bad, evalt(inc.a[1], {blk: bad, ln: 9})), w)
            except NoVal:
                rep.unknown('read:place', show(inc.a[1])[:120], w)
            try:
                bad = next((b for b in range(33) if (evalt(lo, {ln: b, blk: 5}), evalt(hi, {ln: b, blk: 5})) != (2, 2 + b)), None)
                rep.judge('read:bytes', bad is None, 'exactly the counted bytes after the two-byte head' if bad is None else 'length %d takes bytes %d..%d' % (bad, evalt(lo, {ln: bad, blk: 5}), evalt(hi, {ln: bad, blk: 5})), w)
            except NoVal:
                rep.unknown('read:bytes', show(inc.a[2])[:120], w)
            for c in fs:
                lens, wins = iunion(lens, F.cset(c, ln)), iunion(wins, F.cset(c, blk))
                big = F.cset(c, ln)
                over = iinter(big, irange(33, 255))
                rep.judge('read:limit', not any(over.has(i) for i in range(33, 256)),
                          'windows over 32 bytes are refused' if not any(over.has(i) for i in range(33, 256)) else 'a window of %s bytes is accepted' % max(i for i in range(33, 256) if over.has(i)), w)
            # the next window starts where this one ends
            if S in r.I.phis:
                for nx, _ in r.I.phis[S]:
                    if nx.op == 'slice' and nx.a[0] is S:
                        try:
                            bad = next((b for b in range(33) if evalt(nx.a[1], {ln: b, blk: 5}) != 2 + b), None)
                            rep.judge('read:next', bad is None and nx.a[2] is seqlen(S) or (None if bad is None else False), 'the next window follows', w)
                        except NoVal:
                            rep.unknown('read:next', show(nx)[:120], w)
    if n and all(x.op == 'rep' or x.op == 'splice' and x.a[0] is ph and x.a[2].op == 'slice' for ph in acc for x, _ in r.I.phis[ph]):
        miss = [i for i in range(1, 33) if not lens.has(i)]
        rep.judge('read:taken', not miss, 'windows of 1 to 32 bytes are taken' if not miss else 'a window of %d bytes is never taken' % miss[0], w)
        miss = [i for i in range(256) if not wins.has(i)]
        rep.judge('read:windows', not miss, 'windows 0 to 255 are taken' if not miss else 'window %d is never taken' % miss[0], w)
    for st, v in r.rets:
        if is_err(v):
            continue
        o = r.out(st, 0)
        if o is not None and o.op == 'phi':
            for c in st.facts:
                z = F.cset(c, seqlen(o))
                rep.judge('read:end', z.single() == 0 or (False if all(t.op in ('len', 'le0', 'eq0', 'idx', 'done') for t in c.d) else None),
                          'the set is complete only when the input is used up' if z.single() == 0 else 'the set is taken as complete with input left', w)
    rep.floor('windows read', n, 1)


# ---------------------------------------------------------------- wire windows, writing
def write(rep, r, w):
    n = 0
    T = r.arg(1)
    for st, v in r.rets:
        o = r.out(st, 0)
        todo, seen = [o], set()
        while todo:
            x = todo.pop()
            for y in subterms(x):
                if y in r.I.phis and y not in seen and y.op == 'phi':
                    seen.add(y)
                    todo.extend(z for z, _ in r.I.phis[y])
        for ph in seen:
            if any(parts(inc) and parts(inc)[0] is ph and len(parts(inc)) > 1 for inc, fs in r.I.phis[ph]):
                say_whole(rep, 'write:all', r, ph, T, 256, 'the loop goes over all windows', w)
            for inc, fs in r.I.phis[ph]:
                ps = parts(inc)
                if ps and ps[0] is ph and len(ps) > 1:
                    n += 1
                    window(rep, r, ps[1:], fs, T, w)
                elif inc is ph:
                    for c in fs:
                        z = [t for t, q in c.d.items() if t.op == 'eq' and q.single() == 1 and any(y.op in ('chunk', 'slice') for y in t.a) and any(is_zeros(y) for y in t.a)]
                        z += [t for t, q in c.d.items() if t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over' and t.a[0].a[0].op == 'chunk' and
                              any(nonzero(alt) for alt in t.a[1])]
                        lost = skipped(r, c, T)
                        if lost is not None:
                            rep.bad('write:skip', 'a window whose byte %d alone is %d is left out' % lost, w)
                            continue
                        rep.judge('write:skip', True if z else None, 'only empty windows are left out', w)
    rep.floor('windows written', n, 1)


ONE = [(i, v) for i in (31, 0, 1, 15, 16, 30, 7, 8) for v in (1, 128, 64, 255, 2)]


def chunk_of(ts, T):
    cs = {y for t in ts for y in subterms(t) if y.op == 'chunk' and y.a[0] is T}
    return cs.pop() if len(cs) == 1 else None


def skipped(r, c, T):
    """(i, v) such that a window with only byte i set, to v, is left out under c."""
    C = chunk_of(list(c.d), T)
    if C is None:
        return None
    pt = Points(r)
    d = F.Conj({t: q for t, q in c.d.items() if any(y is C for y in subterms(t))})
    for i, v in ONE:
        b = bytearray(32)
        b[i] = v
        try:
            if pt.at([d], {C: bytes(b), seqlen(C): 32} | {y: 0 for y in subterms(C) if y.op == 'elem'}) is True:
                return i, v
        except (NoVal, TypeError, ValueError, IndexError):
            return None
    return None


def cut(r, c, C, cnt):
    """(i, v) such that a window with only byte i set, to v, is written without it under c."""
    pt = Points(r)
    d = F.Conj({t: q for t, q in c.d.items() if any(y is C for y in subterms(t))})
    inner = {y: 0 for y in subterms(C) if y.op == 'elem'}
    es = {y for y in subterms(cnt) if y.op == 'elem' and y not in inner}
    if len(es) > 1 or any(y in r.I.phis for t in list(d.d) + [cnt] for y in subterms(t)):
        return None
    for i, v in ONE:
        for low in (0, 3):
            b = bytearray(32)
            b[i] = v
            if low < i:
                b[low] |= 1
            for k in range(32) if es else (0,):
                env = {C: bytes(b), seqlen(C): 32}
                env.update(inner)
                env.update({e: k for e in es})
                try:
                    if pt.at([d], env) is True and pt.value(cnt, env) <= i:
                        return i, v
                except (NoVal, TypeError, ValueError, IndexError):
                    return None
    return None


def whole(r, ph, src, count):
    """Does the loop that builds `ph` go over everything `src` has (`count` steps)?  True, None, or what it leaves out."""
    ops = set()

    def walk(x):
        if hasattr(x, 'op'):
            if x.op == 'op':
                ops.add(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(ph.a[2])
    res = True
    for o in ops:
        if o.a[0] in ('take', 'skip') and is_num(o.a[1]):
            k = o.a[1].a[0]
            if o.a[0] == 'take' and k < count or o.a[0] == 'skip' and k > 0:
                return 'the loop takes only %s' % ('the first %d of %d' % (k, count) if o.a[0] == 'take' else 'what comes after the first %d' % k)
        elif o.a[0] not in ('enumerate', 'rev', 'copied', 'cloned', 'map', 'take', 'skip'):
            res = None
    for st, v in r.rets:
        for c in st.facts:
            if not any(t.op == 'done' and q.single() == 1 and any(y is src for y in subterms(t.a[0])) for t, q in c.d.items()):
                res = None
    return res


def say_whole(rep, key, r, ph, src, count, good, w):
    g = whole(r, ph, src, count)
    rep.judge(key, False if isinstance(g, str) else g, good if not isinstance(g, str) else g, w)


def is_zeros(x):
    return x.op == 'bytes' and not any(x.a[0]) or x.op == 'rep' and x.a[0] is num(0)


def cut_at_zero(c, C, cnt):
    v = F.cset(c, idx(C, sub(cnt, num(1))))
    return v.single() == 0


def nonzero(alt):
    """One alternative of an exists: an element in range is not zero."""
    ks = [(k, s) for k, s in alt if k.op != 'le0']
    return len(ks) == 1 and ks[0][0].op == 'idx' and all(ks[0][1].has(i) for i in range(1, 256))


def window(rep, r, ps, fs, T, w):
    def byte(x):
        return x.a[1] if x.op == 'be' else num(x.a[0][0]) if x.op == 'bytes' and len(x.a[0]) == 1 else None
    if len(ps) != 3 or byte(ps[0]) is None or byte(ps[1]) is None or ps[2].op not in ('slice', 'chunk'):
        return rep.unknown('write', ' ++ '.join(show(x)[:80] for x in ps), w)
    win, ln, body = byte(ps[0]), byte(ps[1]), ps[2]
    if body.op == 'chunk':
        body = mk('slice', body, num(0), num(32))
    C = body.a[0]
    if C.op == 'chunk' and C.a[0] is T:
        size, e = C.a[1], C.a[2]
        size = size if isinstance(size, int) else size.a[0] if is_num(size) else None
        rep.judge('write:size', None if size is None else size == 32, 'windows of 32 bytes', w)
        if e.op != 'elem':
            return rep.unknown('write:number', show(e)[:80], w)
        try:
            bad = next((i for i in range(256) if evalt(win, {e: i}) != i), None)
            rep.judge('write:number', bad is None, 'window i is bytes 32i.. of the set' if bad is None else 'bytes %d.. go out as window %d' % (32 * bad, evalt(win, {e: bad})), w)
        except NoVal:
            rep.unknown('write:number', show(win)[:120], w)
    else:
        return rep.unknown('write', show(body)[:120], w)
    rep.judge('write:from', body.a[1] is num(0), 'from the first byte', w)
    ls = [y for y in subterms(ln) if y.op == 'elem']
    cnt = body.a[2]
    if ln is cnt or wrap(8, cnt) is ln:
        rep.good('write:count', 'the count is that of the bytes that follow', w)
    else:
        at = {y for y in subterms(sub(ln, cnt)) if y.op == 'elem' and y.a[0].op == 'range'}
        try:
            bad = next((i for i in range(32) if evalt(ln, {y: i for y in at}) != evalt(cnt, {y: i for y in at})), None) if len(at) < 2 else True
            rep.judge('write:count', bad is None if len(at) < 2 else None, 'the count is that of the bytes that follow' if bad is None else 'the count is %s and the bytes that follow %s' % (show(ln)[:60], show(cnt)[:60]), w)
        except NoVal:
            rep.unknown('write:count', show(ln)[:80], w)
    # nothing non-zero is cut off
    for c in fs:
        if cnt is seqlen(C) or cnt is num(32):
            rep.good('write:tail', 'all bytes of the window', w)
            continue
        hit = None
        for t, q in c.d.items():
            if t.op == 'exists' and t.a[0].op == 'over':
                s = t.a[0].a[0]
                if s.op == 'slice' and s.a[0] is C and s.a[2] in (seqlen(C), num(32)):
                    if q.single() == 0 and any(nonzero(alt) for alt in t.a[1]):
                        d = sub(s.a[1], cnt)
                        if is_num(d):
                            hit = d.a[0] <= 0
        first = any(t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over' and t.a[0].a[0].op == 'slice' and t.a[0].a[0].a[0] is C and t.a[0].a[0].a[1] is num(0)
                    for t, q in c.d.items())
        if hit is None and (first or cut_at_zero(c, C, cnt)):
            hit = False
        if not hit:
            lost = cut(r, c, C, cnt)
            if lost is not None:
                rep.bad('write:tail', 'byte %d of a window is cut off although it is %d' % lost, w)
                continue
        rep.judge('write:tail', hit, 'only zero bytes are cut off' if hit else 'bytes after the first zero or non-zero byte may be cut off', w)


# ---------------------------------------------------------------- rendering
def render(rep, r, w):
    S = mk('fld', r.arg(0), '0')
    n = 0
    for ph, incs in r.I.phis.items():
        by = {}
        for inc, fs in incs:
            ps = parts(inc)
            if len(ps) < 2 or not (ps[0] is ph or ps[0] is r.arg(1)):
                continue
            rest = ps[1:]
            bs = {y for x in rest for y in subterms(x) if y.op == 'idx' and is_set(y.a[0], r)} | \
                 {y for c in fs for t in c.d for y in subterms(t) if y.op == 'idx' and is_set(y.a[0], r)}
            if len(bs) != 1:
                if any(y.op in ('dec', 'ite', 'case') for x in rest for y in subterms(x)):
                    rep.unknown('render', 'no single byte of the set: %s' % [show(x)[:60] for x in rest], w)
                continue
            by.setdefault((ps[0], bs.pop()), []).append((rest, fs))
        for (_, b), l in by.items():
            n += 1
            one(rep, r, l, b, w)
        if by:
            for st in early_all(r, ph):
                plain = all(not any(y in r.I.phis for y in subterms(t)) for c in st.facts for t in c.d)
                what = 'the rendering ends early when %s' % str(st.facts[0])[:160]
                rep.bad('render:to-the-end', what, w) if plain else rep.unknown('render:to-the-end', what, w)
    rep.floor('rendered types', n, 1)


def is_set(x, r):
    return x.op == 'fld' and x.a[0] is r.arg(0) or x is r.arg(0)


def one(rep, r, l, b, w):
    es = {y for rest, fs in l for x in rest for y in subterms(x) if y.op == 'elem'} | {y for rest, fs in l for c in fs for t in c.d for y in subterms(t) if y.op == 'elem'}
    es = {y for y in es if y.a[0].op == 'range'}
    i = [e for e in es if e in set(subterms(b.a[1]))]
    j = [e for e in es if e not in i]
    if len(i) != 1 or len(j) > 1 or b.a[1] is not i[0]:
        return rep.unknown('render', 'byte at %s' % show(b.a[1])[:80], w)
    i = i[0]
    lo = i.a[0].a[0]
    rng = [None]
    if j:
        a, z = j[0].a[0].a[0], j[0].a[0].a[1]
        if not (is_num(a) and is_num(z) and z.a[0] - a.a[0] <= 64):
            return rep.unknown('render', 'bits %s' % show(j[0])[:80], w)
        rng = range(a.a[0], z.a[0])
    rep.judge('render:all', (lo is num(0) and i.a[0].a[1] in (seqlen(b.a[0]), num(8192))) or None, 'every byte of the set is rendered', w)
    work = []
    for rest, fs in l:
        body = rest[0]
        for x in rest[1:]:
            body = ext(body, x)
        work.append((body, fs))
    try:
        for p in list(range(0, 80)) + [127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8160, 8191]:
            for m in MASK + [255, 129]:
                got = []
                for q in rng:
                    env = {i: p, b: m, seqlen(b.a[0]): 8192}
                    if j:
                        env[j[0]] = q
                    here = set()
                    for body, fs in work:
                        if facts_at(fs, env) is not False:
                            here.add(evalt(body, env).strip(b'[,]'))
                    got += here - {b''}
                want = []
                for k in range(8):
                    if m & MASK[k]:
                        t = 8 * p + k
                        want.append((('"%s"' % BYNUM[t][1]) if t in BYNUM else str(t)).encode())
                if sorted(got) != sorted(want):
                    return rep.bad('render:type', 'byte %d with value %#x renders as %s, want %s' % (p, m, b','.join(got).decode('latin1')[:80], b','.join(want).decode()[:80]), w)
        rep.good('render:type', 'bit 0x80>>k of byte i renders as type 8i+k, by name where it has one', w)
    except NoVal as e:
        rep.unknown('render:type', str(e)[:120], w)

