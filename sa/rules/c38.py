"""The JSON of a record states every one of its fields.

The text each renderer returns is derived as constants and rendered values.  It is cut at its member names; what stands
behind each must be exactly the field that member is for: a number field in decimal, a name as its text, bytes as two
hexadecimal digits each or as a list, over all bytes from the first to the last and in their order.  No field may be
missing; the rendering of a record of any type is held to the same of the record inside.  (That the whole is JSON is C22; the list of types is C21.)
"""
RULE = 'derived text of every renderer cut at its member names, each value compared with the field it is for'
import re
from vs import *
from points import full, Points, NoVal

KEYS = {
    'A': {'address': 'address'}, 'AAAA': {'address': 'address'}, 'NS': {'ns': 'name_server'}, 'Txt': {'contents': 'data'},
    'CName': {'canonical_name': 'canonical_name'}, 'DName': {'delegation_name': 'delegation_name'},
    'TLSA': {'usage': 'cert_usage', 'selector': 'selector', 'data_ty': 'data_ty', 'data': 'data'},
    'DnsKey': {'flags': 'flags', 'protocol': 'protocol', 'alg': 'alg', 'pubkey': 'pubkey'},
    'DS': {'key_tag': 'key_tag', 'alg': 'alg', 'digest_type': 'digest_type', 'digest': 'digest'},
    'RRSig': {'signed_record_type': 'ty', 'alg': 'alg', 'signed_labels': 'labels', 'orig_ttl': 'orig_ttl', 'expiration': 'expiration',
              'inception': 'inception', 'key_tag': 'key_tag', 'key_name': 'key_name', 'signature': 'signature'},
    'NSec': {'next_name': 'next_name'},
    'NSec3': {'hash_algo': 'hash_algo', 'flags': 'flags', 'hash_iterations': 'hash_iterations', 'salt': 'salt', 'next_name_hash': 'next_name_hash'},
}
TEXTS = [b'a', b' ab ', b'Ab.Cd.', b'a.b.', b'.', b'-1', b'ab' * 200, b'a a', b'a\xc3\xa4b', b'xyz.', b'  a']
PART = {'rev': 'in reverse order', 'skip': 'without the first ones', 'take': 'only some of them', 'step_by': 'only some of them', 'skip_while': 'without some of them', 'take_while': 'without some of them', 'filter': 'without some of them'}


class Open(Exception):
    pass


def check(ctx, rep):
    P, n = ctx.prog(), 0
    for f in P.fns:
        if 'body' not in f or not f.get('local') or f['name'] != 'json' or '{closure' in f['path'] or f['body']['argc'] != 1:
            continue
        ty = (P.types[P.deref_ty(f['body']['locals'][1])].get('p') or '').split('::')[-1]
        if ty not in KEYS:
            continue
        r = ctx.run(f)
        if not r.ok or r.unmod():
            rep.unknown('render:' + ty, r.why or 'unmodelled %s' % sorted(r.unmod())[:2], f['span'])
            continue
        n += 1
        for st, v in r.rets:
            try:
                toks = tokens(r, v)
                members(rep, r, ty, toks, st.facts, f['span'])
            except Open as e:
                rep.unknown('text:' + ty, str(e), f['span'])
    whole(ctx, rep, P)
    rep.floor('renderers', n, len(KEYS), hard=False)


def whole(ctx, rep, P):
    """What the rendering of a record of any type says is what that record holds."""
    rr = adt_path(P, 'rr::RR')
    if rr is None:
        return
    for f in [f for k in ('RR::json', 'RR as Record::json') for f in ctx.fns(k) if self_is(P, f, rr)]:
        for d, v in enumerate(P.adt[rr]['v']):
            n = v['n']
            if n not in KEYS:
                continue
            r = run_variant(ctx, f, d, skip=('RR::json', 'RR as Record::json'))
            if not r.ok or r.unmod():
                rep.unknown('any:' + n, r.why or 'unmodelled', f['span'])
                continue
            for st, x in r.rets:
                try:
                    members(rep, r, n, tokens(r, x), st.facts, f['span'], mk('fld', r.p(0), n + '.0'), 'any.')
                except Open as e:
                    rep.unknown('any:' + n, str(e), f['span'])


def tokens(r, v, depth=0):
    out = []
    if depth > 8:
        raise Open('carried texts too deep')
    for i, q in enumerate(parts(v)):
        if q in r.I.phis:
            if i:
                raise Open('a carried text in the middle')
            inits, bodies = [], []
            for w, fs in r.I.phis[q]:
                ps = parts(w)
                if w is q:
                    bodies.append(([], fs))
                elif ps[:1] == [q]:
                    bodies.append((ps[1:], fs))
                else:
                    inits.append(w)
            if any(x is q for w in inits for x in subterms(w)):
                raise Open('a carried text in the middle')
            tk = []
            for w in inits:
                t = tokens(r, w, depth + 1)
                if t not in tk:
                    tk.append(t)
            if len(tk) != 1:
                # the list of types is written from several places; what comes before it is common
                k = 0
                while tk and all(len(t) > k and t[k] == tk[0][k] for t in tk):
                    k += 1
                if not tk or not k:
                    raise Open('%d beginnings' % len(tk))
                nxt = [t[k] for t in tk if len(t) > k]
                head = []
                if len(nxt) == len(tk) and all(x[0] == 'b' for x in nxt):
                    m = 0
                    while all(len(x[1]) > m and x[1][m] == nxt[0][1][m] for x in nxt):
                        m += 1
                    head = [('b', nxt[0][1][:m])] if m else []
                out += tk[0][:k] + head + [('open', None)]
            else:
                out += tk[0]
            out.append(('loop', q, bodies))
        elif q.op == 'bytes':
            if out and out[-1][0] == 'b':
                out[-1] = ('b', out[-1][1] + q.a[0])
            else:
                out.append(('b', q.a[0]))
        elif q.op == 'ite' and all(parts(a)[:1] and parts(a)[0].op == 'bytes' for a in q.a[1:3]):
            a, b = parts(q.a[1])[0].a[0], parts(q.a[2])[0].a[0]
            m = 0
            while m < min(len(a), len(b)) and a[m] == b[m]:
                m += 1
            out += [('b', a[:m]), ('open', None)]
        else:
            out.append(('q', q))
    return out


MEMBER = re.compile(rb'[{,]\s*"([A-Za-z0-9_]+)"\s*:')


def cut(toks):
    """member -> value tokens, in order."""
    out, cur = [], None
    for t in toks:
        if t[0] != 'b':
            if cur is not None:
                cur[1].append(t)
            continue
        pos = 0
        for m in MEMBER.finditer(t[1]):
            if cur is not None:
                cur[1].append(('b', t[1][pos:m.start()]))
            cur = (m.group(1).decode(), [])
            out.append(cur)
            pos = m.end()
        if cur is not None:
            cur[1].append(('b', t[1][pos:]))
    return [(k, [x for x in v if x[0] != 'b' or x[1].strip(b' "}[]')]) for k, v in out]


def members(rep, r, ty, toks, facts, w, base=None, tag=''):
    P = r.P
    got = {}
    for k, v in cut(toks):
        if k in got:
            rep.bad('twice:' + ty, 'member "%s" is there twice' % k, w)
        got[k] = v
    path = next(p for p in P.adt if p.endswith('rr::' + ty))
    have = {x[0]: P.types[x[1]] for x in P.adt[path]['v'][0]['f']}
    for key, fld in [('name', 'name')] + list(KEYS[ty].items()):
        if fld not in have:
            rep.unknown('field:%s.%s' % (ty, fld), 'no such field', w)
            continue
        F_ = mk('fld', r.p(0), fld) if base is None else mk('rrname', r.p(0)) if fld == 'name' else mk('fld', base, fld)
        what = '%s%s.%s' % (tag, ty, fld)
        if key not in got:
            if any(t[0] == 'open' for t in toks):
                rep.unknown('value:' + what, 'not found', w)
            else:
                rep.bad('value:' + what, 'there is no member "%s"' % key, w)
            continue
        k, why = value(r, got[key], F_, facts)
        if k is None:
            rep.unknown('value:' + what, why, w)
        else:
            rep.judge('value:' + what, k, '"%s" is %s' % (key, why), w)


def mentions(t, x):
    return any(y is x for y in subterms(t))


def value(r, v, F_, facts):
    n = mk('fld', F_, '0')
    if any(t[0] == 'open' for t in v):
        return None, 'not read'
    if not v:
        return False, 'empty'
    if len(v) == 1 and v[0][0] == 'q':
        q = v[0][1]
        if q is F_ or q is n or (q.op == 'dec' and q.a[0] is F_):
            return True, 'the field'
        if q.op == 'fmtdebug' and q.a[1] is F_:
            return True, 'the list of its bytes'
        if q.op in ('dec', 'fmtdebug', 'fld', 'hex') and r.imprecise(q) is None and not any(y in r.I.phis for y in subterms(q)):
            if q.op in ('dec', 'hex') and q.a[0].op not in ('fld', 'int', 'wrap', 'lin', 'and', 'or', 'idx'):
                return None, show(q)[:80]
            if q.op == 'hex' and q.a[0] is F_:
                return None, show(q)[:80]
            return False, '%s instead' % show(q)[:80]
        if mentions(q, F_) or mentions(q, n):
            x = n if mentions(q, n) else F_
            pt = Points(r)
            for s in TEXTS:
                try:
                    t = pt.value(q, {x: s})
                except NoVal:
                    continue
                if isinstance(t, bytes) and t != s and pt.reach(list(facts), {x: s}) is True:
                    return False, 'the text %r for the field %r' % (t, s)
        return None, show(q)[:80]
    if v[0][0] == 'loop' and len(v) == 1:
        bodies = v[0][2]
        ps = [b for b, _ in bodies if b]
        hexes = [b[0] for b in ps if len(b) == 1 and b[0].op == 'hex']
        if len(hexes) != len(ps) or not ps:
            return None, 'a loop over %s' % [[show(x)[:50] for x in b] for b in ps][:2]
        for h in hexes:
            x = h.a[0]
            if x.op != 'idx' or x.a[1].op != 'elem':
                return None, show(h)[:80]
            if x.a[0] is not F_:
                return (False if x.a[0].op in ('fld', 'slice') else None), 'the bytes of %s' % show(x.a[0])[:60]
            if not full(x.a[1], F_):
                if x.a[1].a[0].op == 'range' and r.imprecise(x) is None:
                    return False, 'only the bytes at %s' % show(x.a[1].a[0])[:60]
                for y in subterms(x.a[1]):
                    if y.op == 'kept' and y.a[0] in ('skip', 'take') and hasattr(y.a[1], 'op'):
                        try:
                            k = Points(r).value(y.a[1], {F_: bytes(200)})
                        except NoVal:
                            continue
                        if k > 0 if y.a[0] == 'skip' else k < 200:
                            return False, 'of 200 bytes only what %s %d leaves' % (y.a[0], k)
                return None, show(x)[:80]
            if h.a[1] is not num(2) and h.a[1] != 2:
                return False, 'bytes of %s digits each' % h.a[1]
            if 'hex' not in str(h.a[2]):
                return None, show(h)[:80]
            if isinstance(h.a[3], int) and not h.a[3] & 1 << 24:
                return False, 'digits padded with %r' % chr(h.a[3] & 0x1fffff)
        for b, fs in bodies:
            for c in fs:
                if any(t.op == 'kept' for t in c.d):
                    return False, 'some bytes of the field only'
                if not b and any(t.op == 'idx' or t.op in ('eq0', 'le0') and any(y.op == 'idx' for y in subterms(t)) for t in c.d):
                    return False, 'without the bytes for which %s' % str(c)[:100]
        for c in facts:
            for t in c.d:
                if t.op == 'done' and mentions(t.a[0], F_):
                    for o in t.a[1]:
                        if o in PART:
                            return False, 'the bytes %s' % PART[o]
        return True, 'the hexadecimal digits of its bytes'
    if v[0][0] == 'loop':
        return None, 'a loop and more'
    if any(t[0] == 'b' for t in v) and any(t[0] == 'q' and (t[1] is F_ or t[1] is n or (t[1].op == 'dec' and t[1].a[0] is F_)) for t in v):
        return False, 'the field with %s around it' % [t[1] for t in v if t[0] == 'b'][:2]
    if all(t[0] == 'b' for t in v):
        return False, 'the constant %s' % v[0][1]
    return None, '%d pieces' % len(v)
