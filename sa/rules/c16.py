"""Record writers and readers agree field by field.

For every record type the bytes its writer appends and the fields its reader builds are derived as closed forms over the
record's fields and the input.  The writer's parts, walked in order, say where each field's bytes lie; the reader's form
for the field has to be the reading of exactly those bytes.  The length prefix is compared with the length of what follows
by tabulating both over field lengths.  The TTL read and the place where reading goes on are evaluated on sample
headers, and a stream of records has to be used up, with every record kept, when it is taken as read.  Text chunks, name encoding and type windows are compared step by step.
"""
RULE = 'position-by-position comparison of the extracted writer and reader forms of every record type'
from base import *
import names
from rules import c21
import framing


def check(ctx, rep):
    P = ctx.prog()
    rr = adt_path(P, 'rr::RR')
    nm = adt_path(P, 'rr::Name')
    if rr is None or nm is None:
        return rep.bad('anchor:RR', 'record enum or name type not found')
    vs = P.adt[rr]['v']
    n = 0
    for d, v in enumerate(vs):
        S = payload(P, v)
        if S is None:
            rep.unknown('type:' + v['n'], 'variant is not a struct', '')
            continue
        n += 1
        one_type(ctx, rep, P, rr, nm, v['n'], d, S)
    rep.floor('record types', n, 12)
    envelope(ctx, rep, P, rr)
    framing.header(ctx, rep)
    framing.stream(ctx, rep)
    names.write_name(ctx, rep)
    if hasattr(names, 'name_len'):
        names.name_len(ctx, rep)
    for key, fn in (('read_nsec_types_bitmap', c21.read), ('write_nsec_types_bitmap', c21.write), ('nsec_types_bitmap_len', maplen)):
        for f in ctx.fns(key):
            c21.with_run(ctx, rep, f, (lambda a, b, c: maplen(ctx, a, b, c)) if fn is maplen else fn)


def payload(P, v):
    if len(v['f']) != 1:
        return None
    t = v['f'][0]
    t = t[1] if isinstance(t, (list, tuple)) else t
    T = P.types[t] if isinstance(t, int) else None
    return T['p'] if T and T['k'] == 'struct' else None


def params(P, f):
    b = f['body']
    return [P.types[P.deref_ty(b['locals'][i + 1])] for i in range(b['argc'])]


def writers(ctx, P, S):
    for f in P.fns:
        if 'body' not in f or f['body']['argc'] != 2 or not f.get('trait'):   # helpers with the same signature write parts
            continue
        a = params(P, f)
        if a[0].get('p') == S and a[1].get('p', '').endswith('vec::Vec') and sig(P, f)[0][1].startswith('&mut') and sig(P, f)[1] == '()':
            yield f


def readers(ctx, P, S, nm):
    for f in P.fns:
        if 'body' not in f or f['body']['argc'] != 3 or not f.get('trait'):
            continue
        a = params(P, f)
        ret = P.types[f['body']['locals'][0]]
        if a[0].get('p') == nm and a[1].get('n') == '[u8]' and a[2].get('n') == '[u8]' and ret.get('p', '').endswith('result::Result') \
                and ret.get('a') and P.types[ret['a'][0]].get('p') == S:
            yield f


def one_type(ctx, rep, P, rr, nm, V, d, S):
    rd = [f for f in readers(ctx, P, S, nm)]
    wr = [f for f in writers(ctx, P, S)]
    flds = [x[0] if isinstance(x, (list, tuple)) else x['n'] for x in P.adt[S]['v'][0]['f']]
    forms = []
    for f in rd:
        r = ctx.run(f)
        if not r.ok or r.unmod():
            rep.unknown('read:' + V, r.why or 'unmodelled %s' % sorted(r.unmod())[:2], f['span'])
            continue
        for st, v in r.rets:
            if is_ok(v) and pay(v).op == 'agg' and len(pay(v).a[2]) == len(flds):
                forms.append((r, st, {k: x for k, x in zip(flds, pay(v).a[2])}, f['span']))
            elif not is_err(v):
                rep.unknown('read:' + V, show(v)[:120], f['span'])
    if not forms:
        refused = rd and all(ctx.run(f).ok and not ctx.run(f).unmod() and ctx.run(f).rets and all(is_err(v) for _, v in ctx.run(f).rets) for f in rd)
        if refused:
            rep.bad('read:' + V, 'every %s record is refused' % V, rd[0]['span'])
        else:
            rep.unknown('read:' + V, 'no reader of this type', '')
    nw = 0
    for f in wr:
        if f.get('generic') or 'Record>' in f['path'] and 'StaticRecord' not in f['path']:
            pass
        r = ctx.run(f)
        nw += writer(ctx, rep, V, r, r.arg(0), forms, flds, f['span'])
    for f in P.fns:
        if 'body' not in f or f['body']['argc'] != 2:
            continue
        a = params(P, f)
        if a[0].get('p') == rr and a[1].get('p', '').endswith('vec::Vec') and sig(P, f)[1] == '()' and not f['path'].endswith(('as rr::Record>::write_u16_len_prefixed_data',)):
            r = run_variant(ctx, f, d)
            base = mk('fld', r.arg(0), V + '.0')
            nw += writer(ctx, rep, V, r, base, forms, flds, f['span'])
    if not nw:
        rep.unknown('write:' + V, 'no writer of this type', '')


def writer(ctx, rep, V, r, base, forms, flds, w):
    if not r.ok or r.unmod():
        rep.unknown('write:' + V, r.why or 'unmodelled %s' % sorted(r.unmod())[:2], w)
        return 0
    n = 0
    for st, v in r.rets:
        o = r.out(st, 1)
        if o is None:
            rep.unknown('write:' + V, 'no output', w)
            continue
        ps = parts(o)
        n += 1
        if ps and ps[0] in r.I.phis:
            text(rep, V, r, ps, base, forms, flds, st, w)
            continue
        if not ps or ps[0] is not r.arg(1):
            rep.unknown('write:' + V, show(o)[:160], w)
            continue
        ps = ps[1:]
        if ps and ps[0].op == 'rdata_lp':
            continue
        split = head(ps)
        if split is None and ps and all(q.op in ('wname', 'fld') for q in ps[:1]) and not any(y in r.I.phis for q in ps for y in subterms(q)) and r.imprecise(o) is None:
            rep.bad('write:' + V, 'no two-byte length in front: %s' % show(o)[:160], w)
            continue
        if split is None:
            rep.unknown('write:' + V, 'no two-byte length in front: %s' % show(o)[:160], w)
            continue
        lp, body = split
        length(rep, V, lp, body, w)
        accepted(rep, V, body, base, forms, flds, ctx.prog(), w)
        for fr in forms:
            k = len(rep.items)
            layout(rep, V, body, base, fr, flds, w)
            if any(x[0] == 'unknown' for x in rep.items[k:]):
                points(rep, V, body, base, fr, flds, ctx.prog(), w)
    return n


def samples(V, body, base, flds, P):
    """Field values and the bytes written for them: (values, bytes, operations to evaluate reader forms with)."""
    S = next((p for p in P.adt if p.endswith('rr::' + V)), None)
    if S is None:
        return
    ts = {x[0]: P.types[x[1]] for x in P.adt[S]['v'][0]['f']}
    data = cat_of(body)
    nl = {}
    text = mk('fld', base, 'none')
    for k in range(12):
        env = {}
        vals = {}
        for i, f in enumerate(flds):
            T = ts[f]
            t = mk('fld', base, f)
            if T['k'] == 'int':
                v = [0, 1, (1 << T['b']) - 1, 0x0102030405060708 >> (64 - T['b']), 200 % (1 << T['b']), 1 << (T['b'] - 1)][(k + i) % 6]
                env[t] = vals[f] = v
            elif T['k'] == 'array':
                env[t] = vals[f] = bytes((k * 31 + i + j) % 256 for j in range(T['len']))
            elif T.get('p', '').endswith('vec::Vec'):
                env[t] = vals[f] = bytes((k * 7 + j) % 256 for j in range([0, 1, 4, 20, 130, 200][(k + i) % 6]))
            elif T.get('p', '').endswith('rr::Name'):
                vals[f] = [b'.', b'a.', b'ab.cde.', b'x.y.z.'][(k + i) % 4]
                env[mk('fld', t, '0')] = vals[f]
            else:
                vals[f] = [b'', b'\0\1\x40', b'\0\2\x40\1\1\1\x80'][(k + i) % 3]
                env[mk('fld', t, '0')] = vals[f]
        wire = lambda x: b'\0' if x == b'.' else b''.join(bytes([len(z)]) + z for z in x.split(b'.')[:-1]) + b'\0'

        def used(b):
            i = 0
            while i < len(b) and b[i]:
                i += 1 + b[i]
            if i >= len(b):
                raise NoVal('name')
            return i + 1

        def rdname(go, x):
            b = go(x.a[0])
            b = b[:used(b)]
            out, i = b'', 0
            while b[i]:
                out += b[i + 1:i + 1 + b[i]] + b'.'
                i += 1 + b[i]
            return out or b'.'

        def fld(go, x):
            if x.a[1] == 'Ok.0' and x.a[0].op in ('rdname', 'rdbitmap'):
                return go(x.a[0])
            if x.a[1] == '0' and x.a[0].op == 'fld' and x.a[0].a[1] == 'Ok.0':
                return go(x.a[0])
            raise NoVal('fld')
        ops = {'wname': lambda go, x: wire(go(x.a[0])), 'wbitmap': lambda go, x: go(x.a[0]), 'rdname': rdname, 'rdbitmap': lambda go, x: go(x.a[0]),
               'namelen_in': lambda go, x: used(go(x.a[0])), 'fld': fld}
        try:
            yield vals, evalt(data, env, ops), ops
        except NoVal:
            continue


def accepted(rep, V, body, base, forms, flds, P, w):
    """Bytes written for a record are not refused by its reader."""
    if not forms:
        return
    for vals, b, ops in samples(V, body, base, flds, P):
        why = None
        for r, st, form, rw in forms:
            for c in st.facts:
                no = None
                for t, z in c.d.items():
                    try:
                        g = evalt(t, {r.arg(1): b}, ops)
                        if isinstance(g, int) and not z.has(int(g)):
                            no = t
                            break
                    except (NoVal, IndexError, TypeError, ValueError):
                        continue
                if no is None:
                    why = True
                    break
                why = why or no
            if why is True:
                break
        if why is not True and why is not None:
            return rep.bad('accepted:' + V, 'the bytes %s written for %s are refused (%s)' % (b[:40].hex(), {k: v for k, v in vals.items() if k in flds[:3]}, show(why)[:80]), w)
    rep.good('accepted:' + V, 'what is written is not refused when read', w)


def points(rep, V, body, base, fr, flds, P, w):
    """Writer and reader forms evaluated at sample field values: the reader has to give back what was written."""
    r, st, form, rw = fr
    for vals, b, ops in samples(V, body, base, flds, P):
        env2 = {r.arg(1): b}
        for f in flds:
            if f not in form or form[f] is r.arg(0):
                continue
            try:
                g = evalt(unwrap(form[f]), env2, ops)
            except (NoVal, IndexError):
                continue
            if g != vals[f] and not (isinstance(g, list) and list(vals[f]) == g):
                return rep.bad('layout:' + V, 'field %s = %s is written into %s and read back as %s' % (f, vals[f], b[:40].hex(), g), w)


def head(ps):
    if not ps:
        return None
    h = ps[0]
    if h.op == 'be' and h.a[0] in (16, num(16)):
        return h.a[1], ps[1:]
    if h.op == 'bytes' and len(h.a[0]) >= 2:
        return num(int.from_bytes(h.a[0][:2], 'big')), ([byts(h.a[0][2:])] if len(h.a[0]) > 2 else []) + ps[1:]
    return None


def total(ps):
    t = num(0)
    for x in ps:
        t = add(t, seqlen(x))
    return t


def length(rep, V, lp, body, w):
    want = total(body)
    at = sorted({y for y in subterms(lp) if y.op == 'len'} | {y for y in subterms(want) if y.op == 'len'}, key=lambda t: t.id)
    fixed = {y: 4 if V == 'A' else 16 if V == 'AAAA' else None for y in at}
    try:
        bad = None
        for k in range(120):
            env = {y: fixed[y] if fixed[y] is not None else (k * (7 + 3 * i) + 11 * i) % 250 for i, y in enumerate(at)}
            if k > 100:
                env = {y: fixed[y] if fixed[y] is not None else (k * (701 + 3 * i) + 11 * i) % 8000 for i, y in enumerate(at)}
            if evalt(lp, env) % 65536 != evalt(want, env) % 65536 and evalt(want, env) < 65536:
                bad = 'the length says %d where %d bytes follow' % (evalt(lp, env), evalt(want, env))
                break
        rep.judge('length:' + V, bad is None, bad or 'the length prefix counts exactly the bytes that follow: %s' % show(lp)[:80], w)
    except NoVal as e:
        rep.unknown('length:' + V, '%s against %s' % (show(lp)[:80], show(want)[:80]), w)


def field_of(t, base):
    """Name of the field of `base` that t is (also of a single-field wrapper around it)."""
    path = []
    while t.op == 'fld':
        path.append(t.a[1])
        if t.a[0] is base:
            return path[-1]
        t = t.a[0]
    return None


def unwrap(t):
    while t.op == 'agg' and len(t.a[2]) == 1:
        t = t.a[2][0]
    if t.op == 'fld' and t.a[1] == '0':
        pass
    return t


def layout(rep, V, body, base, fr, flds, w):
    r, st, form, rw = fr
    D = r.arg(1)
    L = seqlen(D)
    lost = [k for k in flds if k in form and form[k] is not r.arg(0) and any(y is D for y in subterms(form[k])) and not any(field_of(y, base) == k for x in body for y in subterms(x))]
    if lost and not any(r.imprecise(x) is not None or y in r.I.phis or y.op in ('phi', 'ite', 'rec') for x in body for y in subterms(x)) and not any(base in y.a for x in body for y in subterms(x) if y.op != 'fld'):
        return rep.bad('fields:' + V, 'never written: %s; what is written is %s' % (lost, ' ++ '.join(show(x)[:60] for x in body)), w)
    off = num(0)
    lens = {}          # field -> its length, where a prefix gives it
    done = set()
    for i, x in enumerate(body):
        last = i == len(body) - 1
        if x.op == 'be':
            bits = x.a[0] if isinstance(x.a[0], int) else x.a[0].a[0]
            v = x.a[1]
            f = field_of(v, base)
            here = idx(D, off) if bits == 8 else frombe(bits, slice_(D, off, add(off, num(bits // 8))))
            if f is not None:
                done.add(f)
                compare(rep, V, f, form.get(f), here, D, w, 'bytes %s, %d bits' % (show(off)[:40], bits))
            else:
                g = v
                while g.op == 'wrap':
                    g = g.a[1]
                f = field_of(g.a[0], base) if g.op == 'len' else None
                if f is None or bits != 8:
                    return rep.unknown('layout:' + V, 'writes %s' % show(x)[:100], w)
                lens[f] = here
            off = add(off, num(bits // 8))
            continue
        if x.op == 'bytes':
            return rep.unknown('layout:' + V, 'writes constant %r' % x.a[0][:20], w)
        if x.op == 'wname':
            f = field_of(x.a[0], base)
            got = form.get(f)
            rest = slice_(D, off, L)
            if f is None or got is None:
                return rep.unknown('layout:' + V, 'writes %s' % show(x)[:100], w)
            done.add(f)
            want = mk('fld', mk('rdname', rest, r.arg(2)), 'Ok.0')
            compare(rep, V, f, got, want, D, w, 'a name at %s' % show(off)[:40])
            off = add(off, mk('namelen_in', rest, r.arg(2)))
            continue
        if x.op == 'wbitmap':
            f = field_of(x.a[0], base)
            got = form.get(f)
            if f is None or got is None:
                return rep.unknown('layout:' + V, 'writes %s' % show(x)[:100], w)
            done.add(f)
            rest = slice_(D, off, L)
            compare(rep, V, f, unwrap(got), mk('fld', mk('rdbitmap', rest), 'Ok.0'), D, w, 'type windows from %s' % show(off)[:40])
            if not last:
                return rep.unknown('layout:' + V, 'type windows are not last', w)
            continue
        f = field_of(x, base)
        if f is None or form.get(f) is None:
            return rep.unknown('layout:' + V, 'writes %s' % show(x)[:100], w)
        done.add(f)
        if f in lens:
            end = add(off, lens[f])
        elif last:
            end = L
        else:
            return rep.bad('layout:' + V, 'field %s has neither a length nor the end of the data behind it' % f, w)
        compare(rep, V, f, form[f], slice_(D, off, end), D, w, 'bytes %s to %s' % (show(off)[:40], show(end)[:40]))
        off = end
    if off is not L and not any(x.op == 'wbitmap' for x in body):
        for c in st.facts:
            full = le_implied(c, L, off) or any(F.cset(c, t).single() == 1 for t in (eqi(off, L), eqi(L, off)) if not is_num(t))
            k = None if full else leftover(c, D, off)
            rep.judge('whole:' + V, True if full else None if k is None else False, 'bytes left over behind the last field are refused' if full else 'not seen' if k is None else '%d byte(s) may be left over behind the last field' % k, rw)
    miss = [k for k in flds if k not in done and form.get(k) is not r.arg(0)]
    rep.judge('fields:' + V, not miss or (False if all(k in form for k in miss) else None), 'every field read is written' if not miss else 'never written: %s' % miss, w)


def leftover(c, D, off):
    """A number of bytes behind the last field with which all conditions on the input's length hold."""
    used = {y for y in subterms(off) if y.op == 'namelen_in'}
    L = seqlen(D)
    for n in (1, 2, 7, 300):
        env = {y: 20 for y in used}
        try:
            at = evalt(off, env)
            env[L] = at + n
            if all(z.has(int(evalt(t, env))) for t, z in c.d.items() if any(y is L for y in subterms(t))):
                return n
        except (NoVal, TypeError):
            return None
    return None


PLAIN = {'idx', 'slice', 'frombe', 'be', 'param', 'int', 'lin', 'len', 'fld', 'rdname', 'rdbitmap', 'namelen_in', 'wrap', 'bytes', 'div', 'mod', 'or', 'and'}


def compare(rep, V, f, got, want, D, w, what):
    key = 'field:%s.%s' % (V, f)
    if got is None:
        return rep.unknown(key, 'not read', w)
    if got is want:
        return rep.good(key, 'written and read as %s' % what, w)
    plain = all(y.op in PLAIN for y in subterms(got))
    if plain:
        same = equal_at(got, want, D)
        if same is True:
            return rep.good(key, 'written and read as %s' % what, w)
        if same is None and got.op != want.op:
            return rep.unknown(key, 'written as %s, read as %s' % (what, show(got)[:100]), w)
        return rep.bad(key, 'written as %s, read as %s' % (what, show(got)[:100]), w)
    rep.unknown(key, 'written as %s, read as %s' % (what, show(got)[:100]), w)


def equal_at(a, b, D):
    """Whether two readings of the input agree on sample inputs: True/False, None if they cannot be evaluated."""
    try:
        for k in range(4):
            s = bytes((37 * k + 11 * i + 5) % (9 if k == 3 else 251) for i in range(64))
            env = {D: s}
            if evalt(a, env) != evalt(b, env):
                return False
        return True
    except NoVal:
        return None


# ---------------------------------------------------------------- text records
def text(rep, V, r, ps, base, forms, flds, st, w):
    """A length byte and that many bytes per chunk of at most 255, in order, nothing left out."""
    if len(ps) != 1:
        return rep.unknown('text', 'after the chunks: %s' % [show(x)[:60] for x in ps[1:]], w)
    O = ps[0]
    f = [k for k in flds if k != 'name']
    if len(f) != 1:
        return rep.unknown('text', 'fields %s' % flds, w)
    data = mk('fld', base, f[0])
    n = mk('len', data) if seqlen(data).op == 'len' else seqlen(data)
    good = 0
    chunks = any(len(parts(v)) == 3 and parts(v)[0] is O and parts(v)[2].op == 'chunk' for v, fs in r.I.phis[O])
    for v, fs in r.I.phis[O]:
        q = parts(v)
        if q and q[0] is r.arg(1):
            good += init(rep, q[1:], n, data, w, chunks)
        elif q and q[0] is O:
            good += step(rep, r, q[1:], O, data, w, fs)
        else:
            rep.unknown('text', show(v)[:160], w)
    for fr in forms:
        rtext(rep, fr, f[0], w)


CEIL = [max(1, -(-k // 255)) for k in range(0, 65536)]
LENS = sorted(set(range(0, 520)) | {255 * i + j for i in range(1, 257) for j in (-1, 0, 1) if 255 * i + j + CEIL[255 * i + j] < 65536})


def init(rep, q, n, data, w, chunks):
    h = head(q)
    if h is None:
        rep.unknown('text:length', 'no two-byte length in front', w)
        return 0
    lp, rest = h
    one = True
    try:
        bad = next((k for k in LENS if evalt(lp, {n: k}) % 65536 not in ((k + CEIL[k],) if one else (k + -(-k // 255), k + CEIL[k]))), None)
        rep.judge('length:Txt', bad is None, 'the length prefix counts data and chunk heads' if bad is None else 'for %d bytes of text the length says %d, not %d' % (bad, evalt(lp, {n: bad}), bad + CEIL[bad]), w)
    except NoVal:
        rep.unknown('length:Txt', show(lp)[:100], w)
    if rest:
        b = cat_of(rest)
        try:
            bad = next((k for k in LENS if evalt(b, {n: k}) != (bytes([min(255, k)]) if not chunks or k == 0 else b'')), None)
            rep.judge('text:first', bad is None, 'the first chunk is headed by its length' if bad is None else 'the first chunk of %d bytes is headed by %s' % (bad, evalt(b, {n: bad})), w)
        except NoVal:
            rep.unknown('text:first', show(b)[:100], w)
    return 1


def cat_of(ps):
    b = ps[0]
    for x in ps[1:]:
        b = ext(b, x)
    return b


def admitted(fs, n):
    """Lengths the way's conditions on n allow, and whether all of those conditions were read."""
    cs, sure = [], True
    for c in fs or ():
        l = []
        for t, q in c.d.items():
            if any(y is n for y in subterms(t)):
                try:
                    evalt(t, {n: 1})
                    l.append((t, q))
                except (NoVal, TypeError, IndexError):
                    sure = False
        cs.append(l)

    def ok(k):
        try:
            return not cs or any(all(q.has(int(evalt(t, {n: k}))) for t, q in l) for l in cs)
        except (NoVal, TypeError, IndexError):
            return False
    return [k for k in LENS if k and ok(k)], sure


def step(rep, r, q, O, data, w, fs=None):
    if not q:
        return 0
    # chunked iteration: head and body of the same chunk
    if len(q) == 2 and q[0].op == 'be' and q[1].op in ('chunk', 'slice'):
        C = q[1]
        size = C.a[1] if C.op == 'chunk' else None
        ln = q[0].a[1]
        while ln.op == 'wrap':
            ln = ln.a[1]
        if C.op == 'chunk' and C.a[0] is data:
            size = size if isinstance(size, int) else size.a[0] if is_num(size) else None
            rep.judge('text:chunk', None if size is None else size == 255, 'chunks of 255', w)
            rep.judge('text:head', ln is seqlen(C) or None, 'each chunk is headed by its length', w)
            return 1
    R = q[0].a[0] if q[0].op == 'slice' else None
    if R is None or R not in r.I.phis or q[0].a[1] is not num(0):
        rep.unknown('text:chunk', show(q[0])[:100], w)
        return 0
    m = q[0].a[2]
    n = seqlen(R)
    ks, sure = admitted(fs, n)

    def say(key, bad, good, why):
        rep.judge(key, True if bad is None else False if sure else None, good if bad is None else why(bad), w)
    try:
        bad = next((k for k in ks if evalt(m, {n: k}) != min(255, k)), None)
        say('text:chunk', bad, 'each chunk takes the next min(255, rest) bytes', lambda k: 'of %d bytes left %s are taken' % (k, evalt(m, {n: k})))
        tail = cat_of(q[1:]) if len(q) > 1 else byts(b'')
        bad = next((k for k in ks if evalt(tail, {n: k}) != (bytes([min(255, k - min(255, k))]) if k > 255 else b'')), None)
        say('text:head', bad, 'each further chunk is headed by its length', lambda k: 'with %d bytes left the next head is %s' % (k, evalt(tail, {n: k})))
    except NoVal as e:
        rep.unknown('text:chunk', '%s %s' % (show(m)[:60], str(e)[:60]), w)
    for v, fs in r.I.phis[R]:
        if v is data:
            rep.good('text:from', 'from the first byte', w)
        elif v.op == 'slice' and v.a[0] is R:
            ks, sure = admitted(fs, n)
            try:
                bad = next((k for k in ks if (evalt(v.a[1], {n: k}), evalt(v.a[2], {n: k})) != (min(255, k), k)), None)
                say('text:rest', bad, 'the rest follows', lambda k: 'after %d bytes left, %s to %s remain' % (k, evalt(v.a[1], {n: k}), evalt(v.a[2], {n: k})))
            except NoVal:
                rep.unknown('text:rest', show(v)[:100], w)
        else:
            rep.unknown('text:rest', show(v)[:100], w)
    return 1


def rtext(rep, fr, f, w0):
    r, st, form, w = fr
    x = form[f]
    while x.op == 'agg' and len(x.a[2]) == 1:
        x = x.a[2][0]
    if x not in r.I.phis:
        return rep.unknown('text:read', show(x)[:120], w)
    for v, fs in r.I.phis[x]:
        q = parts(v)
        if v is NIL or v is x:
            continue
        if len(q) != 2 or q[0] is not x or q[1].op != 'slice':
            rep.unknown('text:read', show(v)[:120], w)
            continue
        S = q[1].a[0]
        ln = idx(S, num(0))
        try:
            bad = next((k for k in range(256) if (evalt(q[1].a[1], {ln: k}), evalt(q[1].a[2], {ln: k})) != (1, 1 + k)), None)
            rep.judge('text:read', bad is None, 'a length byte and that many bytes' if bad is None else 'a chunk headed %d is read as bytes %s to %s' % (bad, evalt(q[1].a[1], {ln: bad}), evalt(q[1].a[2], {ln: bad})), w)
        except NoVal:
            rep.unknown('text:read', show(q[1])[:120], w)
        for nx, _ in r.I.phis.get(S, ()):
            if nx.op == 'slice' and nx.a[0] is S:
                try:
                    bad = next((k for k in range(256) if evalt(nx.a[1], {ln: k}) != 1 + k), None)
                    rep.judge('text:next', bad is None and (nx.a[2] is seqlen(S) or None) if bad is None else False, 'the next chunk follows', w)
                except NoVal:
                    rep.unknown('text:next', show(nx)[:120], w)
            elif nx is not r.arg(1) and nx is not S:
                rep.unknown('text:next', show(nx)[:120], w)


# ---------------------------------------------------------------- the envelope
def envelope(ctx, rep, P, rr):
    n = 0
    for f in ctx.fns('write_rr'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok or r.unmod():
            rep.unknown('record', r.why or 'unmodelled', w)
            continue
        for st, v in r.rets:
            o = r.out(st, 2)
            ps = parts(o) if o is not None else []
            if not ps or ps[0] is not r.arg(2):
                rep.unknown('record', show(o)[:160] if o is not None else 'no output', w)
                continue
            ps = ps[1:]
            n += 1
            kinds = []
            ok_ = True
            for x in ps:
                if x.op == 'wname' and any(y.op == 'rrname' for y in subterms(x)):
                    kinds.append('name')
                elif x.op == 'rdata_lp':
                    kinds.append('data')
                elif x.op == 'be':
                    bits = x.a[0] if isinstance(x.a[0], int) else x.a[0].a[0]
                    v2 = x.a[1]
                    if v2 is r.arg(1):
                        kinds.append('ttl%d' % bits)
                    elif not {y for y in subterms(v2) if y.op in ('param', 'unk', 'phi')} - {r.arg(1)} and differs(v2, r.arg(1)):
                        kinds.append('not-the-ttl%d' % bits)
                    elif v2.op in ('case', 'rrty', 'ite') or any(y.op in ('rrty', 'discr') for y in subterms(v2)):
                        kinds.append('type%d' % bits)
                    else:
                        kinds.append('?' + show(x)[:60])
                elif x.op == 'bytes':
                    kinds.append('const:' + x.a[0].hex())
                else:
                    kinds.append('?' + show(x)[:60])
            want = ['name', 'type16', 'const:0001', 'ttl32', 'data']
            rep.judge('record', True if kinds == want else None if any(k[0] == '?' for k in kinds) else False, 'written as %s' % ' '.join(kinds), w)
    if not n:
        rep.bad('anchor:write_rr', 'no record writer') if not ctx.fns('write_rr') else rep.unknown('record', 'no result', '')
    # reading: type, class, TTL and data where the writer puts them
    m = 0
    for f in P.fns:
        if 'body' not in f or f['body']['argc'] != 2:
            continue
        ret = P.types[f['body']['locals'][0]]
        a = params(P, f)
        if not (ret.get('p', '').endswith('result::Result') and ret.get('a') and a[0].get('n') == '&[u8]' or a[0].get('n') == '[u8]'):
            continue
        if not ret.get('a'):
            continue
        T0 = P.types[ret['a'][0]]
        if T0['k'] != 'tuple' or len(T0.get('f', ())) != 2 or P.types[T0['f'][0]].get('p') != rr or P.types[T0['f'][1]].get('n') != 'u32':
            continue
        r = ctx.run(f)
        w = f['span']
        if not r.ok or r.unmod():
            rep.unknown('record:read', r.why or 'unmodelled', w)
            continue
        I, pk = r.arg(0), r.arg(1)
        nl = mk('namelen_in', I, pk)
        at = lambda o, k: frombe(8 * k, slice_(I, add(nl, num(o)), add(nl, num(o + k))))
        ty, cl, ttl, dl = at(0, 2), at(2, 2), at(4, 4), at(8, 2)
        for st, v in r.rets:
            if not is_ok(v) or pay(v).op != 'agg':
                continue
            m += 1
            rec, t = pay(v).a[2]
            nme = next((y for y in rec.a[2][0].a[2] if y.op == 'fld' and y.a[0].op == 'rdname'), None) if rec.op == 'agg' and rec.a[2] and rec.a[2][0].op == 'agg' else None
            rep.judge('record:ttl', t is ttl or (None if not all(y.op in PLAIN for y in subterms(t)) else False), 'TTL read from four bytes behind the class', w)
            if nme is not None:
                rep.judge('record:name', nme is mk('fld', mk('rdname', I, pk), 'Ok.0') or (False if nme.a[0].op == 'rdname' and rec.a[2][0].a[2][0] is nme else None), 'the name comes first', w)
            for c in st.facts:
                rep.judge('record:class', F.cset(c, cl).single() == 1 or (None if not any(q_.single() is not None for t_, q_ in c.d.items() if t_.op == 'frombe') else False), 'class IN is required', w)
            o = r.out(st, 0)
            end = add(add(nl, num(10)), dl)
            rep.judge('record:end', True if o is slice_(I, end, seqlen(I)) else (False if o is not None and all(y.op in PLAIN for y in subterms(o)) and dlknown(o, st, dl) else None),
                      'the record ends with its counted data', w)
    rep.floor('record readers', m, 1)


def differs(t, x):
    try:
        return any(evalt(t, {x: k}) != k for k in (0, 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1))
    except NoVal:
        return False


def dlknown(o, st, dl):
    return any(y is dl for y in subterms(o))


# ---------------------------------------------------------------- type windows
def maplen(ctx, rep, r, w):
    """The computed length of the windows grows with each window by what its writer appends."""
    wr = [f for f in ctx.fns('write_nsec_types_bitmap')]
    if not wr:
        return rep.unknown('maplen', 'no window writer', w)
    rw = ctx.run(wr[0])
    grow, at = set(), set()
    for ph, incs in rw.I.phis.items():
        for inc, fs in incs:
            ps = parts(inc)
            if ps and ps[0] is ph and len(ps) > 1:
                grow.add((shape(total(ps[1:])), cond(fs)))
                at.add(ph)
    if len(at) > 1:
        # the bytes of one window are appended by loops of their own
        grow.add((None, None))
    got = set()
    for st, v in r.rets:
        if v not in r.I.phis:
            return rep.unknown('maplen', show(v)[:100], w)
        c21.say_whole(rep, 'maplen:all', r, v, r.arg(0), 256, 'the loop goes over all windows', w)
        for inc, fs in r.I.phis[v]:
            d = sub(inc, v)
            if any(y is v for y in subterms(d)):
                rep.judge('maplen:empty', inc is num(0) or (False if is_num(inc) else None), 'starts at %s' % show(inc)[:60], w)
            elif d is num(0):
                continue
            else:
                got.add((shape(d), cond(fs)))
                at_windows(rep, d, fs, w)
    if len(grow) != 1 or len(got) != 1 or None in list(grow)[0] or None in list(got)[0]:
        return rep.judge('maplen', True if grow == got and grow and None not in list(grow)[0] else None, '%s against %s' % (sorted(map(str, got))[:2], sorted(map(str, grow))[:2]), w)
    rep.judge('maplen', grow == got or (False if list(grow)[0][1] == list(got)[0][1] else None), 'each window adds %s, its writer appends %s' % (list(got)[0][0], list(grow)[0][0]), w)


WINDOWS = [bytes(i in on for i in range(32)) for on in ({0}, {31}, {5}, {0, 7}, {0, 31}, set(range(32)), set(range(4)), {2, 3, 9})]


def at_windows(rep, d, fs, w):
    """What is added for a window, at sample windows."""
    C = {y for y in subterms(d) if y.op == 'chunk'} or {y for c in fs for t in c.d for y in subterms(t) if y.op == 'chunk'}
    if len(C) != 1:
        return
    C = C.pop()

    def count(go, x):
        src = x.a[0].a[0]
        n = 0
        for j in range(len(go(src))):
            for alt in x.a[1]:
                ok_ = True
                for k, s in alt:
                    es = {y for y in subterms(k) if y.op == 'elem' and y.a[0].op == 'range'}
                    if len(es) != 1:
                        raise NoVal('count')
                    ok_ = ok_ and s.has(evalt(k, {es.pop(): j, C: go(C)}))
                if ok_:
                    n += 1
                    break
        return n
    es = {y for y in subterms(d) if y.op == 'elem' and y.a[0].op == 'range'}
    try:
        for W in WINDOWS:
            last = max(i for i in range(32) if W[i])
            env = {C: W}
            if any(y.op == 'count' for y in subterms(d)):
                g = evalt(d, env, {'count': count})
            elif cond(fs) is not None and len(es) == 1:
                e = list(es)[0]
                env[e] = last
                if not any(possible(c, C, e, env) for c in fs):
                    continue
                g = evalt(d, env)
            else:
                return
            if g != 3 + last:
                return rep.bad('maplen', 'a window whose last non-zero byte is %d counts %d, its writer appends %d' % (last, g, 3 + last), w)
    except NoVal:
        pass


def possible(c, C, e, env):
    """Whether facts on the window and the position hold at a window."""
    for t, q in c.d.items():
        if t.op == 'exists':
            continue
        try:
            if not q.has(evalt(t, env)):
                return False
        except NoVal:
            if t.op == 'le0' and lin_parts(t.a[0])[0] < -60000:
                # the sum does not overflow
                continue
            if any(y is C or y is e for y in subterms(t)) and not (t.op == 'idx' and t.a[1] is e):
                raise
    return True


def shape(t):
    """A sum over one position, with the names of things taken out."""
    while t.op == 'wrap':
        t = t.a[1]
    c, p = lin_parts(t)
    out = []
    for a, k in p.items():
        if a.op == 'elem' and a.a[0].op == 'range':
            out.append(('position', k))
        elif a.op == 'len' and a.a[0].op in ('chunk', 'slice'):
            out.append(('window', k))
        else:
            return None
    return (c, tuple(sorted(out)))


def cond(fs):
    """What the position in an added window is known to be."""
    out = set()
    for c in fs:
        last = any(t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over' and t.a[0].a[0].op == 'slice' and any(c21.nonzero(alt) for alt in t.a[1]) for t, q in c.d.items())
        here = any(t.op == 'idx' and t.a[1].op == 'elem' and all(q.has(i) for i in range(1, 256)) and not q.has(0) for t, q in c.d.items())
        out.add('last non-zero byte' if last and here else None)
    return out.pop() if len(out) == 1 else None
