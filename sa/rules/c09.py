"""Validity window and cache TTL are the tightest over all signatures used.

The three reported values are followed back through every loop to the values they were set from.  At every loop
re-entry and every return, each signature that the facts there say was verified (an RRSIG handed to verify_rrsig, or
the one verify_dnskeys returned) has to be among the operands of the running max (inception) or min (expiration,
original TTL), directly or through the loop values; every operand has to be such a time or TTL of a verified
signature, or the neutral start value.  Success needs start < end.
"""
RULE = 'operands of the running max/min at every loop re-entry against the signatures verified there'
from vs import *

LO, HI = 60 * 60 * 24 * 365 * 27, (1 << 32) + 60 * 60 * 24 * 365 * 27 - 1
SPEC = {'valid_from': ('max', 'inception', True), 'expires': ('min', 'expiration', True), 'max_cache_ttl': ('min', 'orig_ttl', False)}


def check(ctx, rep):
    r = stream_run(ctx, rep)
    if r:
        oks = [(st, pay(v)) for st, v in r.rets if not is_err(v) and v.op == 'agg']
        for nm in SPEC:
            accum(rep, r, nm, oks)
        window(rep, r, oks)
    for r in runs_of(ctx, rep, 'verify_dnskeys'):
        returned(rep, r)


def returned(rep, r):
    for st, v in r.rets:
        if is_ok(v):
            for c in st.facts:
                ts = [t.a[0] for t, q in c.d.items() if t.op == 'vsig' and q.single() == 0]
                if ts:
                    x = pay(v)
                    rep.judge('returned', True if any(x is t for t in ts) else None if r.imprecise(x) is not None or x in r.I.phis else False, 'verify_dnskeys returns the RRSIG that verified', r.f['span'])


def leaves(t, op):
    if t.op == op:
        return leaves(t.a[0], op) + leaves(t.a[1], op)
    return [t]


def contrib(nm, sig):
    op, f, timed = SPEC[nm]
    x = mk('fld', sig, f)
    return mk('rtime', x) if timed else x


def verified(c):
    """Signatures known to be verified under c: (term, matcher)."""
    out = []
    for t, q in c.d.items():
        if t.op == 'vsig' and q.single() == 0:
            out.append(t.a[0])
        elif t.op == 'dkok' and q.single() == 1:
            out.append(t)
        elif t.op == 'vdk' and q.single() == 0:
            out.append(t)
    return out


def sig_of(nm, leaf):
    """The signature a leaf is the time or TTL of, or None."""
    op, f, timed = SPEC[nm]
    if timed:
        if leaf.op != 'rtime':
            return None
        leaf = leaf.a[0]
    if leaf.op == 'fld' and leaf.a[1] == f:
        return leaf.a[0]
    return None


def is_sig(s, v):
    """Whether signature term s is the verified one v."""
    if v.op == 'dkok':
        return s.op == 'vdksig' and s.a[2] is v.a[0]
    if v.op == 'vdk':
        return s.op == 'vdksig' and s.a[:3] == v.a[:3]
    return s is v


def covered(r, nm, val, sig, c, seen):
    """Whether the running value accounts for the verified signature: True/False/None."""
    op = SPEC[nm][0]
    ls = leaves(val, op)
    if any((s := sig_of(nm, l)) is not None and is_sig(s, sig) for l in ls):
        return True
    # a comparison that shows the value is already at least as tight
    for s in ({y for t in c.d for y in subterms(t) if y.op == 'vdksig' and is_sig(y, sig)} if sig.op in ('dkok', 'vdk') else [sig]) if c is not None else ():
        x = contrib(nm, s)
        if le_implied(c, x, val) if op == 'max' else le_implied(c, val, x):
            return True
    res = False
    for l in ls:
        if l in r.I.phis:
            if l.id in seen:
                res = True
                continue
            seen2 = seen | {l.id}
            k = [covered(r, nm, v, sig, c2, seen2) for v, fs in r.I.phis[l] for c2 in (fs or ())]
            if k and all(k):
                return True
            if None in k:
                res = None
        elif r.imprecise(l) is not None or l.op in ('ite', 'fold', 'concat', 'opaque', 'aggmin', 'aggmax'):
            res = None
    return res


SAMPLE = {'inception': (0, 1, 852076800, 1600000000, 1 << 32), 'expiration': (1, 2, 852076801, 1600000001, 1600000600, 1700000000, 1 << 33),
          'orig_ttl': (0, 1, 30, 300, 3600, 86400, 604800, (1 << 31) + 1, (1 << 32) - 1)}


def differs(r, nm, x, st):
    """A value of the running result for which the form reported is another number; None if there is none or it is not in
    closed form over running results whose meaning is known."""
    import itertools
    ps = sorted({y for y in subterms(x) if y in r.I.phis}, key=lambda t: t.id)
    roles = []
    for p in ps:
        fs = {y.a[1] for q in [p] + web(r, p) for v, _ in r.I.phis[q] for y in subterms(v) if y.op == 'fld' and y.a[1] in SAMPLE}
        if len(fs) != 1:
            return None
        roles.append(fs.pop())
    if len(set(roles)) != len(roles) or SPEC[nm][1] not in roles:
        return None
    for vals in itertools.product(*[SAMPLE[f] for f in roles]):
        env = dict(zip(ps, vals))
        try:
            got = evalt(x, env)
        except (NoVal, TypeError):
            return None
        want = vals[roles.index(SPEC[nm][1])]
        if got != want and facts_at(st.facts, env) is not False:
            live = True
            for c in st.facts:
                live = all(q.has(evalt(t, env)) for t, q in c.d.items() if ok_eval(t, env))
                if live:
                    break
            if live:
                return '%d where the %s is %d' % (got, SPEC[nm][0] + 'imum', want)
    return None


def ok_eval(t, env):
    try:
        evalt(t, env)
        return True
    except (NoVal, TypeError):
        return False


def web(r, t):
    """All loop values t is made of."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in r.I.phis and y not in out and not seq_phi(r, y) and (rng(y) != FULL or True):
                out.append(y)
                todo.extend(v for v, _ in r.I.phis[y])
    return out


def intphis(r, t, op):
    """Loop values reached from t through max/min operands only."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        for l in leaves(x, op):
            if l in r.I.phis and l not in out:
                out.append(l)
                todo.extend(v for v, _ in r.I.phis[l])
    return out


def nothing_collected(r, c):
    """The way was taken because a list filled in a loop had nothing in it."""
    return any(q.single() == 0 and (t.op == 'len' and t.a[0] in r.I.phis or t.op == 'exists' and any(y in r.I.phis for y in subterms(t.a[0]))) for t, q in c.d.items())


def accum(rep, r, nm, oks):
    op, f, timed = SPEC[nm]
    w, n = r.f['span'], 0
    for st, agg in oks:
        x = getf(r.P, agg, 'validation::VerifiedRRStream', nm)
        if x is None:
            rep.unknown(nm, 'no such field', w)
            continue
        ph = intphis(r, x, op)
        if not ph:
            none = bool(st.facts) and all(nothing_collected(r, c) for c in st.facts)
            if not none and is_num(x) or (r.imprecise(x) is None and not any(y in r.I.phis for y in subterms(x))):
                rep.bad(nm, 'reports %s, whatever was verified' % show(x)[:100], w)
            elif differs(r, nm, x, st):
                rep.bad(nm, 'reports %s: %s' % (show(x)[:80], differs(r, nm, x, st)), w)
            else:
                rep.unknown(nm, 'reports %s' % show(x)[:100], w)
            continue
        vals = [(v, fs) for p in ph for v, fs in r.I.phis[p]] + [(x, st.facts)]
        keys = {(p.a[3], p.a[4]) for p in ph if p.op == 'phi'}
        for key, path in keys:
            if path:
                continue
            for _, (blocks, states) in r.I.loops.items():
                for s in states:
                    v = s.store.get(key)
                    if v is not None:
                        vals.append((v, s.facts))
        seen = set()
        for v, fs in vals:
            for c in fs or ():
                if (v, c) in seen:
                    continue
                seen.add((v, c))
                ver = verified(c)
                for l in leaves(v, op):
                    n += operand(rep, r, nm, l, c, ver, w)
                for sg in ver:
                    k = covered(r, nm, v, sg, c, frozenset())
                    if k is False and nothing_collected(r, c) and all(is_num(l) for l in leaves(v, op)):
                        k = None
                    what = 'a DNSKEY set\'s signature' if sg.op in ('dkok', 'vdk') else 'a verified RRSIG'
                    rep.judge(nm + ':all', k, '%s of every verified signature enters the %s' % (f, op) if k else 'the %s of %s is left out' % (f, what), w)
        for p in ph:
            if p.op == 'phi' and not p.a[4]:
                keeps(rep, r, nm, p, w)
    rep.floor(nm + ' operands', n, 1, hard=False)


def keeps(rep, r, nm, p, w):
    """Going round the loop never forgets the running value."""
    op, f, timed = SPEC[nm]
    blocks, states = r.I.loops.get((p.a[0], p.a[1]), ((), ()))
    sib = {q for q in r.I.phis if q.op == 'phi' and q.a[0] is p.a[0] and q.a[1] == p.a[1] and q.a[3] == p.a[3] and q.a[4] == p.a[4]}
    key = (p.a[0], p.a[1])
    round_ = {k for k, _ in r.I.backs.get(key, ())}
    heads = [set(leaves(t.store[p.a[3]], op)) for k, t in r.I.entries.get(key, ()) if k not in round_ and p.a[3] in t.store]
    for s in states:
        v = s.store.get(p.a[3])
        if v is None:
            continue
        for c in s.facts:
            k = retained(r, op, v, sib, c, frozenset())
            if not k and any(h <= set(leaves(v, op)) for h in heads):
                # the head value of a case that is entered but never gone round to
                k = True if all(not is_num(l) for h in heads for l in h) else None
            rep.judge(nm + ':keep', k, 'the running %s is kept' % op if k else 'the running %s is overwritten by %s' % (op, show(v)[:80]), w)


def retained(r, op, v, sib, c, seen):
    ls = leaves(v, op)
    if any(l in sib for l in ls):
        return True
    for p in sib:
        if le_implied(c, p, v) if op == 'max' else le_implied(c, v, p):
            return True
    res = False
    for l in ls:
        if l in r.I.phis:
            if l.id in seen:
                res = True
                continue
            k = [retained(r, op, x, sib, c2, seen | {l.id}) for x, fs in r.I.phis[l] for c2 in (fs or ())]
            if k and all(k):
                return True
            if None in k:
                res = None
        elif r.imprecise(l) is not None or l.op == 'ite':
            res = None
    return res


def operand(rep, r, nm, l, c, ver, w):
    op, f, timed = SPEC[nm]
    if l in r.I.phis:
        return 0
    if is_num(l):
        v = l.a[0]
        okk = (v <= LO if timed else v <= 0) if op == 'max' else (v >= HI if timed else v >= (1 << 32) - 1)
        rep.judge(nm + ':start', okk, 'starts from %d' % v, w)
        return 0
    s = sig_of(nm, l)
    if s is None:
        if r.imprecise(l) is not None or l.op in ('ite', 'fold', 'min', 'max', 'aggmin', 'aggmax') or any(y in r.I.phis for y in subterms(l)):
            other = 'min' if op == 'max' else 'max'
            if l.op == other and any(sig_of(nm, y) is not None or y in r.I.phis for y in leaves(l, other)):
                rep.bad(nm + ':op', 'the %s of the %ss is taken' % (other, f), w)
            else:
                rep.unknown(nm + ':op', show(l)[:120], w)
        else:
            rep.bad(nm + ':op', 'also depends on %s' % show(l)[:120], w)
        return 0
    if any(is_sig(s, v) for v in ver):
        rep.good(nm + ':op', '%s of a verified signature' % f, w)
        # alone, it must be the tighter of the two
        return 1
    rep.judge(nm + ':only', None if s.op == 'vdksig' or not no_phi_guard(r, c) else False, 'the %s of a signature that did not verify is counted' % f, w)
    return 1


def window(rep, r, oks):
    w, n = r.f['span'], 0
    for st, agg in oks:
        a = getf(r.P, agg, 'validation::VerifiedRRStream', 'valid_from')
        b = getf(r.P, agg, 'validation::VerifiedRRStream', 'expires')
        if a is None or b is None:
            continue
        for c in st.facts:
            n += 1
            rep.judge('window', nonempty(r, a, b, c, set()), 'success needs the window to be non-empty', w)
    rep.floor('successful returns', n, 1)


def nonempty(r, a, b, c, seen):
    if F.cset(c, le0(sub(b, a))).single() == 0:
        return True
    if F.cset(c, le0(sub(b, a))).single() is None and rng(sub(b, a)).lo() is not None and rng(sub(b, a)).lo() > 0:
        return True
    pa, pb = r.I.phis.get(a), r.I.phis.get(b)
    if pa is None or pb is None or a.op != 'phi' or b.op != 'phi' or a.a[:3] != b.a[:3]:
        return None if r.imprecise(a) is not None or r.imprecise(b) is not None else False
    if (a, b) in seen:
        return True
    seen.add((a, b))
    res = []
    for va, fa in pa:
        for vb, fb in pb:
            if fa is fb or fa == fb:
                for c2 in fa:
                    if va is a and vb is b:
                        continue
                    res.append(nonempty(r, va, vb, c2, seen))
    if not res:
        return None
    return True if all(res) else None if None in res and False not in res else False
