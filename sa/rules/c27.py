"""The reported proof TTL is the smallest TTL of the records in it.

The builder's TTL after a response is derived as a min-recurrence over the same parse loops that extend the
proof.  Every loop round that appends a record (its wire form with its TTL) must fold exactly that TTL into the
minimum, no round may raise it, the initial value must be the maximum TTL, and the value handed out with the
proof must be that minimum.
"""
RULE = 'min-recurrence of the TTL paired, round by round, with the proof-extending recurrence'
from base import *
import framing
from vs import uncopied

PB = 'query::ProofBuilder'
MAXTTL = (1 << 32) - 1


def mins(t):
    """Operands of a nested minimum."""
    if t.op == 'min':
        return mins(t.a[0]) | mins(t.a[1])
    return {t}


def check(ctx, rep):
    P = ctx.prog()
    me = mk('param', 'p0')
    if field_index(P, PB, 'min_ttl') is None or field_index(P, PB, 'proof') is None:
        return rep.unknown('fields', 'no fields min_ttl and proof')
    framing.header(ctx, rep, ('ttl',))
    for f in rep.need('ProofBuilder::new'):
        r = ctx.run(f)
        for st, v in r.rets:
            b = v.a[2][0] if v.op == 'agg' and v.a[2] else v
            x = getf(P, b, PB, 'min_ttl')
            rep.judge('initial', None if not is_num(x) else x.a[0] == MAXTTL, 'starts at %s' % show(x), f['span'])
    for f in rep.need('ProofBuilder::finish_proof'):
        r = ctx.run(f)
        for st, v in r.rets:
            if is_ok(v):
                t = pay(v)
                x = t.a[2][1] if t.op == 'agg' and len(t.a[2]) == 2 else None
                if x is None or r.imprecise(x):
                    rep.unknown('handed-out', show(v)[:100], f['span'])
                else:
                    rep.judge('handed-out', x is mk('fld', me, 'min_ttl'), 'handed out with %s' % show(x), f['span'])
    for f in rep.need('ProofBuilder::process_response'):
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('process', r.why, w)
            continue
        for st, v in r.rets:
            if is_err(v):
                continue
            o = r.out(st, 0)
            ttl, proof = getf(P, o, PB, 'min_ttl'), uncopied(r, getf(P, o, PB, 'proof'))
            one_path(rep, r, ttl, proof, me, w, st.facts)


def covers(tv, facts, m):
    """Whether tv is at most m: an operand of a minimum, or compared on the path.  None: something of it is known."""
    if m in mins(tv):
        return True
    if facts and all(any(le_implied(c, y, m) for y in mins(tv)) for c in facts):
        return True
    if tv.op == 'ite' or any(a is not tv and tv in subterms(a) and m in subterms(a) for c in facts for a in c.d):
        return None
    return False


def one_path(rep, r, ttl, proof, me, w, facts):
    old = mk('fld', me, 'min_ttl')
    b = r.imprecise(ttl) or r.imprecise(proof)
    if b is not None:
        return rep.unknown('recurrence', show(b)[:100], w)
    ms = mins(ttl)
    rep.judge('keeps-old', any(reaches(r, m, old) for m in ms) or covers(ttl, facts, old), 'the previous TTL stays in the minimum: %s' % show(ttl)[:150], w)
    # every record appended is folded: find all (record ttl) terms appended
    _, adds = growth(r, proof)
    want = set()
    for k, x, fs in adds:
        for y in subterms(x):
            if y.op == 'wrr':
                want.add(y.a[1])
    rep.floor('appended records', len(want), 1, hard=False)
    pph = [x for x in r.I.phis if x.op == 'phi' and any(y.op == 'wrr' for v, _ in r.I.phis[x] for y in subterms(v))]
    tph = [x for x in all_phis(r, ttl)]
    loops = {}
    for x in pph:
        loops.setdefault(x.a[0:1] + (len(r.I.phis[x]),), []).append(x)
    n = 0
    for x in pph:
        # accumulators of the same loop head
        mates = [t for t in tph if t.a[0] == x.a[0] and t.a[1] == x.a[1] and same_head(t, x) and len(r.I.phis[t]) == len(r.I.phis[x])]
        if not mates:
            if left_out(rep, r, x, ttl, old, facts, w):
                n += 1
                continue
            rep.unknown('paired', 'no TTL accumulator at the loop of %s' % show(x), w)
            continue
        for t in mates:
            for (pv, fs), (tv, tfs) in zip(r.I.phis[x], r.I.phis[t]):
                ap = [y for y in subterms(pv) if y.op == 'wrr'] if pv is not x else []
                if not any(z is x for z in subterms(pv)):
                    continue
                n += 1
                ms = mins(tv)
                for y in ap:
                    rep.judge('folded', covers(tv, tfs, y.a[1]), 'a round that appends a record with TTL %s sets the minimum to %s' % (show(y.a[1])[:80], show(tv)[:120]), w)
                rep.judge('monotone', covers(tv, tfs, t), 'a round sets the minimum to %s' % show(tv)[:120], w)
                for m in ms - {t} - {y.a[1] for y in ap}:
                    rep.judge('foreign', False if not r.imprecise(m) else None, 'a round folds in %s, which is not the TTL of a record it appends' % show(m)[:100], w)
    exact(rep, r, ttl, [t for x in pph for t in tph if same_head(t, x) and any(y is x for y in subterms(proof))], old, facts, w)
    # loops behind the last record only carry the TTL along
    last = [y for y in subterms(proof) if y in pph]
    paired = {t for x in pph for t in tph if same_head(t, x)}
    for t in tph:
        if t in paired:
            continue
        for v, fs in r.I.phis[t]:
            exact(rep, r, v, [y for y in paired if any(same_head(y, x) for x in last)], old, fs, w)
            for x in last:
                if not any(y is t for y in subterms(v)) and not any(reaches(r, m, y) for m in mins(v) for y in paired if same_head(y, x)):
                    left_out(rep, r, x, v, old, fs, w)
    # start of the accumulators
    for t in tph:
        for v, fs in r.I.phis[t]:
            if v in r.I.phis or covers(v, fs, t) is not False:
                continue
            ms = mins(v)
            rep.judge('start', all(m is num(MAXTTL) or m is old or m in r.I.phis for m in ms), 'accumulation starts at %s' % show(v)[:80], w)
    if n:
        rep.good('rounds', '%d loop rounds paired' % n, w)


def left_out(rep, r, x, ttl, old, facts, w):
    """The minimum taken over the rounds of the loop of x is not part of this way's TTL: is that TTL above it somewhere?"""
    ts = [t for t in r.I.phis if t.a[:3] == x.a[:3] and t is not x and len(r.I.phis[t]) == len(r.I.phis[x]) and
          any(any(y.op == 'wrr' and y.a[1] in mins(tv) for y in subterms(pv)) for (pv, _), (tv, _) in zip(r.I.phis[x], r.I.phis[t]))]
    if len(ts) != 1:
        return False
    T = ts[0]
    done = bool(facts)
    for c in facts:
        about = {t: q for t, q in c.d.items() if any(y is T or y is old for y in subterms(t))}
        for o, m in ((100, 5), (100, 0), (5, 1), (1, 0), (MAXTTL, MAXTTL - 1), (MAXTTL, 86400)):
            env = {old: o, T: m}
            try:
                if (not about or facts_at([F.Conj(about)], env)) and evalt(ttl, env) > m:
                    rep.bad('folded', 'with a TTL of %d so far and a response whose smallest TTL is %d, the TTL becomes %d' % (o, m, evalt(ttl, env)), w)
                    return True
            except NoVal:
                pass
        if not covers(ttl, [c], T):
            done = False
    if done:
        rep.good('folded', 'a way that keeps the TTL does so because it is no larger', w)
    return done


def exact(rep, r, v, ts, old, facts, w):
    """A value made of the TTL so far and the response's smallest one is the smaller of the two."""
    ts = {t for t in ts if any(y is t for y in subterms(v)) or any(y is t for c in facts or () for z in c.d for y in subterms(z))}
    if len(ts) != 1:
        return
    T = ts.pop()
    shared = reaches(r, T, old)
    ms = {2**31 - 1, 2**31, 604800}
    ms |= {y.a[0] + d for y in subterms(v) if is_num(y) for d in (-1, 0, 1) if 0 <= y.a[0] + d <= MAXTTL}
    ms |= {z for c in facts or () for y, q in c.d.items() if y is T for q in [iinter(q, irange(0, MAXTTL))] if not q.empty() for z in (q.lo(), q.hi())}
    ms |= {z for y in subterms(v) if y.op == 'in' for q in [iinter(y.a[1], irange(0, MAXTTL))] if not q.empty() for z in (q.lo(), q.hi())}
    for c in facts or ():
        about = {t: q for t, q in c.d.items() if any(y is T or y is old for y in subterms(t))}
        for o, m in [(100, 5), (5, 100), (MAXTTL, 86400), (0, 7), (7, 0)] + [(MAXTTL, m) for m in ms] + [(m, MAXTTL) for m in ms]:
            if shared and o < m:
                continue
            env = {old: o, T: m}
            try:
                if (not about or facts_at([F.Conj(about)], env)) and evalt(v, env) != min(o, m):
                    return rep.bad('exact', 'with a TTL of %d so far and a response whose smallest TTL is %d, the TTL becomes %d' % (o, m, evalt(v, env)), w)
            except NoVal:
                return
    rep.good('exact', 'the smaller of the TTL so far and the smallest of the response', w)


def same_head(a, b):
    return a.a[:3] == b.a[:3]


def all_phis(r, t):
    out, st = [], [t]
    while st:
        x = st.pop()
        for y in mins(x):
            if y in r.I.phis and y not in out:
                out.append(y)
                st.extend(v for v, _ in r.I.phis[y])
    return out


def reaches(r, t, goal):
    return t is goal or any(goal in mins(v) for p in all_phis(r, t) for v, _ in r.I.phis[p])
