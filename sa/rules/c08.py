"""NSEC3 records are used only when safe and cheap to use.

On every path that settles a pending proof with an NSEC3 record, the facts have to force hash algorithm 1, flags 0 and
20-byte hashes, and tie the hash compared to a list entry made for that record's own iteration count and salt.  Every
entry of that list is, by its loop's recurrence, SHA-1 of the wire name and the salt, rehashed with the salt once per
iteration, with at most 2500 iterations on the path that adds it; the list-length facts at the additions bound the
number of entries by two.
"""
RULE = 'path facts at every use of an NSEC3 record; recurrence and length bound of the list of name hashes'
from vs import *
from points import agree
import names
from rules import c07


def check(ctx, rep):
    names.all_helpers(ctx, rep, names.write_name)
    r = stream_run(ctx, rep)
    if not r:
        return
    w = r.f['span']
    n, hl = 0, {}
    for c, P in c07.settled(r):
        xs = {x for t in c.d if t.op not in ('exists',) for x in subterms(t) if x.op == 'fld' and x.a[1] == 'NSec3.0'}
        ns = {x for t in c.d if t.op not in ('exists',) for x in subterms(t) if x.op == 'fld' and x.a[1] == 'NSec.0'}
        if any(c07.nsec(rep, r, c, P, x, w)[0] for x in ns):
            continue
        for x in xs:
            n += 1
            use(rep, r, c, P, x, w, hl)
    if not n:
        rep.unknown('use', 'no use of an NSEC3 record found', w)
    for H, (P, ix) in hl.items():
        entries(rep, r, H, P, ix, w)


SALTS = [b'', b'a', b'b', b'ab', b'abc', b'xyz', b'\0' * 8, b'\xff' * 8]
ITERS = [0, 1, 2, 5, 10, 100, 150, 500, 2499, 2500]


def use(rep, r, c, P, x, w, hl):
    f = lambda n: mk('fld', x, n)
    for nm, want in (('flags', iset(0)), ('hash_algo', iset(1))):
        s = flag_values(c, f(nm), range(256))
        bad = [v for v in s if not want.has(v)]
        rep.judge('use:' + nm, not bad, '%s is %s' % (nm, s[:1]) if not bad else 'an NSEC3 with %s %s is used' % (nm, bad[:3]), w)
    k = F.cset(c, seqlen(f('next_name_hash')))
    rep.judge('use:next-length', k.single() == 20, 'the next hash has length %r' % k, w)
    ds = {y for t in c.d if t.op == 'lexlt' for y in subterms(t) if y.op == 'b32dec'}
    for d in ds:
        k = F.cset(c, seqlen(d))
        rep.judge('use:owner-length', k.single() == 20 or c07.first_label(d.a[0], c07.owner_hash(x.a[0])) and False, 'the owner hash has length %r' % k, w)
    hs = {y for t, q in c.d.items() if t.op == 'lexlt' for y in t.a if y.op != 'b32dec' and y is not f('next_name_hash')}
    for h in hs:
        t = h
        while t.op == 'fld':
            t = t.a[0]
        if t.op == 'hash':
            direct(rep, r, c, P, t, f('hash_iterations'), f('salt'), w)
            continue
        if t.op != 'idx':
            rep.unknown('use:hash', show(h)[:120], w)
            continue
        ent, H = t, t.a[0]
        it = sa = None
        for q, z in c.d.items():
            if z.single() != 1:
                continue
            if q.op == 'eq0':
                cs, ps = lin_parts(q.a[0])
                if f('hash_iterations') in ps and len(ps) == 2 and cs == 0:
                    o = next(y for y in ps if y is not f('hash_iterations'))
                    if o.op == 'fld' and o.a[0] is ent and ps[o] == -ps[f('hash_iterations')]:
                        it = o.a[1]
            elif q.op == 'eq' and any(y is f('salt') for y in q.a):
                o = q.a[0] if q.a[1] is f('salt') else q.a[1]
                if o.op == 'fld' and o.a[0] is ent:
                    sa = o.a[1]
        bases, adds = sources(r, H)
        if it is None or sa is None:
            what = 'iteration count' if it is None else 'salt'
            fld = f('hash_iterations') if it is None else f('salt')
            if adds and not bases and all(y.op == 'agg' for y, _ in adds):
                # the entry's component that holds what the record's own field has to equal, and a pair that differs
                ks = {str(i) for y, _ in adds for i, z in enumerate(y.a[2]) if any(q is z for q in (mk('fld', z.a[0], fld.a[1]),) if z.op == 'fld' and z.a[1] == fld.a[1])}
                wit = None
                if len(ks) == 1:
                    o = mk('fld', ent, ks.pop())
                    vals = SALTS if it is not None else ITERS
                    wit = names.counter(c, [((o,), vals), ((fld,), vals)], lambda a, b: a != b, skip=lambda t: t.op == 'exists')
                if wit:
                    rep.bad('use:tie', 'the hash made for the %s %r is compared with a record whose own is %r' % (what, wit[0], wit[1]), w)
                    continue
            single = all(y.op == 'agg' and len(y.a[2]) == 1 for y, _ in adds) and adds
            rep.judge('use:tie', None if bases or not adds or single or any(any(y is fld for y in subterms(q)) and any(y is ent for y in subterms(q)) for q in c.d if q.op != 'exists') else False, 'the hash compared is not tied to the record\'s own %s' % what, w)
            continue
        rep.good('use:tie', 'the hash compared was made for the record\'s iteration count and salt', w)
        hl[H] = (P, (it, sa))


def pick(item, ix):
    return item.a[2][int(ix)] if item.op == 'agg' and ix.isdigit() and int(ix) < len(item.a[2]) else None


def entries(rep, r, H, P, ix, w):
    bases, adds = sources(r, H)
    if bases or not adds:
        return rep.unknown('hashes', 'name hashes come from %s' % [show(b)[:80] for b in bases], w)
    for item, fs in adds:
        it, sa = pick(item, ix[0]), pick(item, ix[1])
        hs = {y for z in (item.a[2] if item.op == 'agg' else ()) for y in subterms(z) if y.op == 'hash'}
        if it is None or sa is None or not hs:
            rep.unknown('hashes', show(item)[:160], w)
            continue
        top = [h for h in hs if not any(h is not g and any(y is h for y in subterms(g)) for g in hs)]
        for c in fs or ():
            k = F.cset(c, it)
            rep.judge('iterations', isubset(k, irange(0, 2500)) or (None if r.imprecise(it) is not None else False), 'hashes with %r iterations' % k, w)
            for h in top:
                direct(rep, r, c, P, h, it, sa, w)
    bound(rep, r, H, w)


def direct(rep, r, c, P, h, it, sa, w):
    """h is the iterated salted SHA-1 of P's name under facts c."""
    if h.a[0] != 'sha1' and h.a[0] is not mk('sha1'):
        rep.judge('hash:algorithm', False if str(getattr(h.a[0], 'op', h.a[0])).startswith('sha') else None, 'hashed with %s' % (h.a[0],), w)
        return
    rep.good('hash:algorithm', 'SHA-1', w)
    M = h.a[1]
    texts = (c07.fn(P, 0), mk('fld', c07.fn(P, 0), '0'))

    def start_ok(v):
        ps = parts(v)
        if len(ps) == 2 and ps[0].op == 'wname' and ps[0].a[0] in texts and ps[1] is sa:
            return True
        if r.imprecise(v) is not None or any(y in r.I.phis and y is not M for y in ps) or any(agree(v, [mk('wname', t), sa]) is not False for t in texts if any(y is t for y in subterms(v))):
            return None
        return False

    def step_ok(v):
        ps = parts(v)
        if len(ps) == 2 and ps[0].op == 'hash' and ps[0].a[0] == h.a[0] and ps[0].a[1] is M and ps[1] is sa:
            return True
        return None if r.imprecise(v) is not None or any(agree(v, [y, sa]) is not False for y in subterms(v) if y.op == 'hash' and y.a[0] == h.a[0] and y.a[1] is M) else False
    inc = r.I.phis.get(M)
    if inc is None:
        k = start_ok(M)
        if k and F.cset(c, it).single() == 0:
            return rep.good('hash:once', 'no extra iteration for a zero count', w)
        return rep.judge('hash:loop', None if k is None or r.imprecise(M) is not None else False, 'hashed once whatever the iteration count' if k else 'hash of %s' % show(M)[:120], w)
    for v, fs in inc:
        if any(y is M for y in subterms(v)):
            k = step_ok(v)
            rep.judge('hash:step', k, 'each iteration hashes the previous hash and the salt' if k else 'each iteration hashes %s' % show(v)[:120], w)
        else:
            k = start_ok(v)
            rep.judge('hash:start', k, 'starts from the wire name and the salt' if k else 'starts from %s' % show(v)[:120], w)
    dn = loop_done(r, c, M)
    if not dn:
        return rep.unknown('hash:count', 'number of iterations not derived', w)
    for t in dn:
        if t.a[0].op != 'range' or t.a[1]:
            rep.unknown('hash:count', show(t)[:120], w)
            continue
        k = sub(t.a[0].a[1], t.a[0].a[0])
        rep.judge('hash:count', k is it or (False if is_num(sub(k, it)) or r.imprecise(k) is None else None), 'iterates %s times' % show(k)[:100], w)


def bound(rep, r, H, w):
    """At most two entries, by the facts on the list's length where entries are added."""
    tag = 'two-sets'
    phis, todo = [], [H]
    while todo:
        x = todo.pop()
        if x in phis or x not in r.I.phis:
            continue
        phis.append(x)
        for v, _ in r.I.phis[x]:
            todo.append(c07.base_list(v.a[0] if v.op == 'push' else v))
    key = {(p.a[3], p.a[4]) for p in phis if p.op == 'phi'}
    # the innermost loop value that pushes go on top of
    pushes = [(p, v, fs) for p in phis for v, fs in r.I.phis[p] if v.op == 'push']
    if not pushes:
        return rep.unknown(tag, 'no additions found', w)
    roots = {v.a[0] for _, v, _ in pushes}
    if len(roots) != 1 or any(v.a[0].op == 'push' for _, v, _ in pushes):
        return rep.unknown(tag, 'additions in %d places' % len(roots), w)
    L = roots.pop()
    inc = r.I.phis.get(L)
    if inc is None:
        return rep.unknown(tag, 'list %s' % show(L)[:80], w)
    # least length the list keeps within from one iteration to the next
    inv = 0
    for _ in range(8):
        for v, fs in inc:
            if v is L or v is NIL:
                continue
            if v.op == 'push' and v.a[0] is L:
                for c in fs or ():
                    s = iinter(F.cset(c, seqlen(L)), irange(0, inv))
                    if not s.empty():
                        inv = max(inv, s.hi() + 1)
            else:
                inv = 1 << 63
    k = 0
    for p, v, fs in pushes:
        for c in fs or ():
            s = iinter(F.cset(c, seqlen(L)), irange(0, inv))
            if not s.empty():
                k = max(k, s.hi() + 1)
    k = k if inv < 8 else 1 << 63
    rep.judge(tag, k <= 2, 'at most %d (iterations, salt) pairs are hashed per name' % k if k < 1 << 60 else 'any number of (iterations, salt) pairs is hashed per name', w)
