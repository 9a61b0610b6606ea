"""Every domain name value is a valid lower-case name.

The conditions under which the validating constructor succeeds are derived and shown to imply each clause of validity
for every string; where a clause is not shown, the derived conditions are evaluated at boundary names.  Every other
place that makes a name value has to go through the constructor or copy the text of a name; nothing may take a mutable
reference to a name's text, and its field is private.
"""
RULE = 'derived acceptance condition implies every clause of validity; constructor and mutation sites of the name type'
from points import *

BADCH = [c for c in range(128) if not 33 <= c <= 126 or c in (34, 92)]
BAD = [(b'', 'the empty string'), (b'a.b', 'a name without a final "."'), (b'a.bc', 'a name without a final "."'), (b'a.a.a.a.a.a.' + b'b' * 64 + b'.', 'a label of 64 bytes'), (b'a.a.a.a.a..b.', 'an empty label'), (b'a', 'a name without a final "."'), (b'..', 'an empty label'), (b'.a.', 'an empty label'), (b'a..b.', 'an empty label'), (b'a..', 'an empty label'),
       (b'a' * 64 + b'.', 'a label of 64 bytes'), (b'b.' + b'a' * 64 + b'.', 'a label of 64 bytes'), (b'a' * 64 + b'.b.', 'a label of 64 bytes'), (b'a' * 200 + b'.', 'a label of 200 bytes'),
       ((b'a' * 63 + b'.') * 4, 'a name of 256 bytes'), ((b'a' * 63 + b'.') * 5, 'a name of 320 bytes'), (b'ab.' + b'a.' * 127, 'a name of 257 bytes'),
       (b'a.' * 127 + b'ab', 'a name without a final "."'), (b'a.' * 40 + b'.b.', 'an empty label'), (b'a.' * 120 + b'.', 'an empty label'), (b'.' + b'ab.' * 50, 'an empty label'),
       (b'a.' * 60 + b'b' * 64 + b'.c.', 'a label of 64 bytes'), (b'a.' * 50 + b'c d.', 'a blank'), (b' ', 'a blank'), ('\u00e4.'.encode(), 'a character that is not ASCII'), ('a.\u20ac.b.'.encode(), 'a character that is not ASCII')] + \
      [(b'a' + bytes([c]) + b'.', 'byte %d' % c) for c in BADCH] + [(bytes([c]) + b'.b.', 'byte %d' % c) for c in BADCH] + [(b'a.b' + bytes([c]) + b'.', 'byte %d' % c) for c in BADCH]
GOOD = [b'.', b'a.', b'A.', b'aB.Cd.', b'Z' * 63 + b'.', b'_x.Y-z.', b'*.A.', (b'Q' * 63 + b'.') * 3, b'A.' * 127]
VALID = GOOD + [(b'Q' * 63 + b'.') * 3 + b'Q' * 62 + b'.', b'b.' + b'A' * 63 + b'.', b'A.1.0.9.', b'-.', b'_443._tcp.x.org.'] + \
        [t for c in range(33, 127) if c not in BADCH and c != 46 for t in (bytes([c]) + b'.', b'a' + bytes([c]) + b'.b.', b'a.b' + bytes([c]) + b'.')]


def check(ctx, rep):
    P = ctx.prog()
    nm = adt_path(P, 'rr::Name')
    if nm is None:
        return rep.bad('anchor:Name', 'name type not found')
    a = P.adt[nm]
    rep.judge('field:private', not any(f[2] for v in a['v'] for f in v['f']), 'the text of a name is private', '')
    made = makers(P, nm)
    rep.floor('places that make a name', len(made), 1)
    n = 0
    done, todo = set(), list(made)
    while todo:
        f = todo.pop()
        if f['id'] in done:
            continue
        done.add(f['id'])
        if f.get('trait') == 'std::clone::Clone::clone':
            n += clone(ctx, rep, f, nm)
            continue
        res = judge_fn(ctx, rep, P, f, nm)
        if res[0] != 'good' and not f.get('pub') and not f.get('trait'):
            up = callers(P, f)
            if up:
                todo += up
                continue
        n += 1
        {'good': rep.good, 'bad': rep.bad, 'unknown': rep.unknown}[res[0]](res[1], res[2], f['span'])
    rep.floor('constructors judged', n, 1, hard=False)
    conv = [f for f in P.fns if 'body' in f and f.get('local') and f.get('trait') == 'std::convert::TryFrom::try_from' and P.types[f['self']].get('p') == nm]
    rep.floor('conversions to a name', len(conv), 1)
    for f in conv:
        if f['id'] not in done:
            res = judge_fn(ctx, rep, P, f, nm)
            {'good': rep.good, 'bad': rep.bad, 'unknown': rep.unknown}[res[0]](res[1], res[2], f['span'])
        refused(ctx, rep, f)
    mutation(rep, P, nm)


def refused(ctx, rep, f):
    """Whether the conditions of success leave out a valid name: they are necessary for success, so a text at which each
    alternative is false is refused."""
    r = ctx.run(f)
    nme = f['path'].split('dnssec_prover::')[-1]
    if not r.ok or r.unmod():
        return rep.unknown('takes', '%s: %s' % (nme, r.why or 'unmodelled %s' % sorted(r.unmod())[:3]))
    src = r.p(0)
    ways = [c for st, v in r.rets if not is_err(v) for c in st.facts]
    if all(F.cset(c, mk('validname', src)).single() == 1 for c in ways):
        return rep.good('takes', '%s: takes what the constructor takes' % nme)
    pt = Points(r)
    opened, seen = False, 0
    for s in VALID + [x for x in (w + b'Ab.' for w in words(ways)) if valid(x)]:
        vs = [pt.at([c], {src: s}) for c in ways]
        if all(v is False for v in vs):
            return rep.bad('refuses', '%s refuses a valid name: %r' % (nme, s[:80]), f['span'])
        opened |= not any(vs)
        seen += 1
    if opened:
        return rep.unknown('takes', '%s: not every sample is decided' % nme)
    rep.good('takes', '%s: %d valid names are taken' % (nme, seen))


def makers(P, nm):
    out = []
    for f in P.fns:
        if 'body' not in f or not f.get('local'):
            continue
        if any(s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and P.types[s[2][1][1]].get('p') == nm for b in P.body(f).bbs for s in b['s']):
            out.append(f)
        for b in P.body(f).bbs:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'ransmute' in str(s[2][1]) and any(isinstance(x, int) and 0 <= x < len(P.types) and P.types[x].get('p') == nm for x in s[2]):
                    out.append(f)
    return out


def callers(P, f):
    import term
    return [g for g in P.fns if 'body' in g and g.get('local') and g is not f and any(i == f['id'] for b in P.body(g).bbs for i in term.fn_ids(b, P.types))]


def clone(ctx, rep, f, nm):
    r = ctx.run(f)
    if not r.ok or r.unmod():
        rep.unknown('clone', r.why or 'unmodelled', f['span'])
        return 1
    for st, v in r.rets:
        t = v.a[2][0] if v.op == 'agg' and v.a[0] == nm else v
        rep.judge('clone', True if t in (r.p(0), mk('fld', r.p(0), '0'), nametext(r.p(0))) else None, 'a clone has the same text', f['span'])
    return 1


def names_in(r, nm):
    """(facts, text, site) of the name values a function returns, leaves behind an argument or passes on."""
    out = []
    for st, v in r.rets:
        for t in [v] + [o for i in range(r.f['body']['argc']) for o in [r.out(st, i)] if o is not None]:
            for y in subterms(t):
                if y.op == 'agg' and y.a[0] == nm:
                    out.append((st.facts, y.a[2][0]))
    for p, inc in r.I.phis.items():
        for v, fs in inc:
            for y in subterms(v):
                if y.op == 'agg' and y.a[0] == nm:
                    out.append((fs, y.a[2][0]))
    for e in r.evs:
        for x in e.args:
            for y in subterms(x):
                if y.op == 'agg' and y.a[0] == nm:
                    out.append((e.facts, y.a[2][0]))
    return out


def judge_fn(ctx, rep, P, f, nm):
    r = ctx.run(f)
    nme = f['path'].split('dnssec_prover::')[-1]
    if not r.ok or r.unmod():
        return 'unknown', 'made', '%s: %s' % (nme, r.why or 'unmodelled %s' % sorted(r.unmod())[:3])
    worst = ('good', 'made', '%s: every name made is checked' % nme)
    found = names_in(r, nm)
    if not found:
        return 'unknown', 'made', '%s: no name value seen' % nme
    for facts, text in found:
        for c in facts:
            res = one(r, nme, c, text)
            if res[0] == 'bad':
                return res
            if res[0] == 'unknown':
                worst = res
    return worst


def one(r, nme, c, text):
    src = text.a[0] if text.op == 'lower' else text
    if text.op == 'fld' or (text.op == 'lower' and src.op == 'fld') or text.op in ('rdname',):
        return 'good', 'made', '%s: the text of a name' % nme
    if F.cset(c, mk('validname', src)).single() == 1 and text.op == 'lower':
        return 'good', 'made', '%s: after the constructor\'s checks' % nme
    if r.imprecise(text) is not None:
        return 'unknown', 'made', '%s: text %s' % (nme, show(text)[:160])
    miss = clauses(r, c, src) if src.op == 'param' else ['not a string it was given']
    if text.op != 'lower' and not (text.op == 'bytes' and text.a[0] == b'.'):
        miss = miss + ['lower case']
    if not miss:
        return 'good', 'valid', '%s: every clause follows from the checks made' % nme
    if src.op != 'param':
        # text put together from parts: only what the constructor's own checks say about it counts
        if any(t.op == 'validname' for t in c.d):
            return 'unknown', 'made', '%s: text %s' % (nme, show(text)[:160])
        ps = [y for y in parts(src) if y.op != 'bytes']
        if len(parts(src)) > 1 and not any(y.op in ('phi', 'case?', 'havoc') for y in subterms(src)) and not any(y is x for t in c.d for y in subterms(t) for x in ps):
            return 'bad', 'unchecked', '%s makes a name of %s without the checks' % (nme, show(text)[:160])
        return 'unknown', 'made', '%s: text %s' % (nme, show(text)[:160])
    pt = Points(r)
    opened = False
    loops = [c2 for _, (_, states) in r.I.loops.items() for s2 in states for c2 in s2.facts]
    for s, what in BAD + special([c] + loops):
        v = pt.reach([c], {src: s})
        if v is True:
            return 'bad', 'accepts', '%s takes %s: %r' % (nme, what, s[:80])
        opened |= v is None
    for s in GOOD + [x + b'Ab.' for x in words([c] + loops)]:
        if pt.reach([c], {src: s}) is True:
            try:
                t = pt.value(text, {src: s})
            except NoVal:
                opened = True
                continue
            if t != s.lower():
                return 'bad', 'text', '%s stores %r for %r' % (nme, t[:80], s[:80])
    return 'unknown', 'valid', '%s: not shown: %s' % (nme, ', '.join(miss)[:200])


def words(cs):
    """Constants the conditions compare with."""
    out = {y.a[0] for c in cs for t in c.d for y in subterms(t) if y.op == 'bytes' and 0 < len(y.a[0]) < 30}
    out |= {bytes([z.single()]) for c in cs for t, z in c.d.items() if t.op in ('idx', 'in') and z.single() is not None and 33 <= z.single() < 127}
    out |= {bytes([y.a[1].single()]) for c in cs for t in c.d for y in subterms(t) if y.op == 'in' and y.a[0].op == 'idx' and y.a[1].single() is not None and 33 <= y.a[1].single() < 127}
    return sorted(out)


def special(cs):
    out = []
    for k in words(cs):
        out += [(k + b'ab', 'a name without a final "."'), (k + b'a..', 'an empty label'), (k + b'a' * 64 + b'.', 'a label of over 63 bytes'), (k + b'a.' + b'b' * 64 + b'.', 'a label of 64 bytes'),
                (k + b'a b.', 'a blank'), (b'a.' * 120 + k * 20 + b'a.' * 10, 'a name of over 255 bytes'), (k + b'a.' * 130, 'a name of over 255 bytes'), (b'a.' + k + b'"b.', 'a quote'), (b'a"' + k + b'b' + k, 'a quote')]
    return [(s, w) for s, w in out if not valid(s)]


def valid(s):
    return 0 < len(s) <= 255 and s.endswith(b'.') and not any(x in BADCH or x > 126 for x in s) and (s == b'.' or all(0 < len(l) < 64 for l in s[:-1].split(b'.')))


def clauses(r, c, s):
    """Clauses of validity that do not follow from the conjunction."""
    miss = []
    n = seqlen(s)
    root = any(t.op == 'eq' and s in t.a and byts(b'.') in t.a and q.single() == 1 for t, q in c.d.items())
    if root:
        return []
    z = F.cset(c, n)
    if z.has(0):
        miss.append('not empty')
    if z.hi() is None or z.hi() > 255:
        miss.append('at most 255 bytes')
    last = F.cset(c, idx(s, sub(n, num(1))))
    if last.single() != 46:
        miss.append('ends in "."')
    if not all_chars(c, s):
        miss.append('printable ASCII without \'"\' and "\\"')
    if not all_labels(r, c, s):
        miss.append('labels of 1 to 63 bytes')
    return miss


def all_chars(c, s):
    for seq in (mk('chars', s), s):
        left = set(BADCH) | {128, 200, 255}
        for z in one_atom(c, lambda t, a: a.op == 'idx' and a.a[0] is seq and a.a[1].op == 'elem' and full(a.a[1], seq)):
            left = {k for k in left if not z.has(k)}
        if not left:
            return True
    return False


def all_labels(r, c, s):
    n = seqlen(s)
    body = slice_(s, num(0), sub(n, num(1)))

    def splitting(x):
        return x.op == 'split' and x.a[0] == 'split' and x.a[1] is body and x.a[2] is byts(b'.')
    left = {0, 64, 65, 200, 255}
    for z in one_atom(c, lambda t, a: a.op == 'len' and a.a[0].op == 'part' and splitting(a.a[0].a[0]) and a.a[0].a[1].op == 'elem' and a.a[0].a[1].a[0] is a.a[0].a[0]):
        left = {k for k in left if not z.has(k)}
    if not left:
        return True
    for t, q in c.d.items():
        if t.op == 'done' and q.single() == 1 and not t.a[1] and splitting(t.a[0]):
            site = t.a[2]
            for (cx, h), (blocks, states) in r.I.loops.items():
                if cx is site.a[0] and site.a[1] in blocks:
                    if states and all(any(a.op == 'len' and a.a[0].op == 'part' and a.a[0].a[0] is t.a[0] and not any(z.has(k) for k in left) for a, z in k.d.items()) for x in states for k in x.facts):
                        return True
    return False


def mutation(rep, P, nm):
    """Mutable references to, and assignments of, the text inside a name."""
    n = 0
    for f in P.fns:
        if 'body' not in f or not f.get('local'):
            continue
        bd = P.body(f)
        for b in bd.bbs:
            if b.get('c'):
                continue
            for s in b['s']:
                if s[0] != '=':
                    continue
                if inside(P, bd, s[1], nm):
                    rep.bad('mutation', '%s assigns the text of a name' % f['path'], s[-1])
                rv = s[2]
                if rv[0] in ('ref', 'rawptr', 'addr') and len(rv) > 2 and rv[1] is True and inside(P, bd, rv[2], nm):
                    rep.bad('mutation', '%s takes a mutable reference to the text of a name' % f['path'], s[-1])
                n += 1
            t = b['t']
            if t[0] == 'call' and inside(P, bd, t[4], nm):
                rep.bad('mutation', '%s overwrites the text of a name' % f['path'], t[-1])
    rep.good('mutation', '%d assignments examined' % n)


def inside(P, bd, place, nm):
    """Whether a place goes through the field of a name."""
    ty = bd.locals[place[0]]
    for e in place[1]:
        t = P.types[ty] if isinstance(ty, int) else {'k': '?'}
        if e == '*':
            ty = t.get('e') if t['k'] in ('ref', 'ptr') else (t.get('a') or [None])[0]
        elif e[0] == 'f':
            if t.get('p') == nm:
                return True
            ty = e[2]
        elif e[0] in ('i', 'ci'):
            ty = t.get('e')
    return False
