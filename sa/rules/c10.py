"""RRSIG times are widened to 64 bits without gaps or collisions.

The value the widening function returns is derived as a piecewise linear form of its 32-bit argument by
abstract interpretation of its compiled body (interval partition on the argument, exact linear values).
The rule compares that form, interval by interval, with t for t >= 852076800 (1997) / t + 2^32 below, and
checks that every use of a RRSIG time in the validator's reported window passes through it.
"""
RULE = 'normal form of resolve_time over an exact interval partition of all 2^32 arguments'
from vs import *


def check(ctx, rep):
    r = stream_run(ctx, rep)
    if r:
        uses(rep, r)
    f = find(ctx, rep, 'resolve_time', ['u32'], 'u64')
    if f is not None:
        r = ctx.run(f)
        if not r.ok:
            rep.unknown('resolve_time', r.why)
            return
        p = r.p(0)
        seen = EMPTY
        exact = True
        for st, v in r.rets:
            dom = EMPTY
            for c in st.facts:
                if set(c.d) - {p}:
                    exact = False
                dom = iunion(dom, iinter(F.cset(c, p), irange(0, (1 << 32) - 1)))
            seen = iunion(seen, dom)
            w = r.imprecise(v)
            if w is not None:
                rep.unknown('value', 'depends on %s' % show(w), f['span'])
                continue
            d = sub(v, p)
            if not is_num(d):
                wit = None
                for t in sorted({0, 1, 2, 3, 255, 256, CUT_HI - 1, CUT_HI, CUT_LO - 1, CUT_LO, CUT_LO + 1, 1 << 31, (1 << 31) - 1, 1600000001, (1 << 32) - 1} | {x for x in (dom.lo(), dom.hi()) if x is not None}):
                    try:
                        if facts_at(st.facts, {p: t}) is True and evalt(v, {p: t}) not in ({t} if t >= CUT_LO else {t + (1 << 32)} if t < CUT_HI else {t, t + (1 << 32)}):
                            wit = (t, evalt(v, {p: t}))
                            break
                    except (NoVal, TypeError):
                        break
                if wit:
                    rep.bad('offset', 'time %d becomes %d' % wit, f['span'])
                    continue
                rep.unknown('value', 'not a constant offset of the argument: %s on %r' % (show(v), dom), f['span'])
                continue
            for off, want, what in ((0, irange(CUT_HI, (1 << 32) - 1), 'returned unchanged'), (1 << 32, irange(0, CUT_LO - 1), 'moved up by 2^32')):
                if d.a[0] == off:
                    x = iinter(dom, icompl(want))
                    rep.judge('offset%d' % off, x.empty() if exact or x.empty() else None, 'times %r are %s%s' % (dom, what, '' if x.empty() else ', which is wrong for %r' % x), f['span'])
                    break
            else:
                rep.bad('offset', 'times %r are moved by %d' % (dom, d.a[0]), f['span'])
        if exact:
            rep.judge('total', icompl(seen, irange(0, (1 << 32) - 1)).empty(), 'a value for every argument', f['span'])


# 1997-01-01 is day 9862 after the epoch; the code base counts 27 plain years (9855 days).  Any cut in the
# week between is the same promise: what matters is that times from 1997 on are unchanged and that the
# image is monotone, so both are accepted.
CUT_LO = 9862 * 86400
CUT_HI = 27 * 365 * 86400


def uses(rep, r):
    """The reported window is made of widened times."""
    n, raw = 0, []
    for nm, f in (('valid_from', 'inception'), ('expires', 'expiration')):
        todo, seen = [], set()
        for st, v in r.rets:
            if not is_err(v) and pay(v).op == 'agg':
                x = getf(r.P, pay(v), 'validation::VerifiedRRStream', nm)
                todo += [(x, st.facts)] if x is not None else []
        while todo:
            x, fs = todo.pop()
            if x in r.I.phis:
                if x not in seen:
                    seen.add(x)
                    todo += r.I.phis[x]
            elif x.op in ('min', 'max'):
                todo += [(y, fs) for y in x.a]
            elif x.op == 'rtime':
                n += 1
            elif x.op == 'fld' and x.a[1] in ('inception', 'expiration'):
                raw += [(nm, x)] if any(F.cset(c, x).lo() < CUT_HI for c in fs) else []
    if n:
        rep.good('use', '%d times in the window, widened' % n, r.f['span'])
        for nm, x in raw:
            rep.bad('use', '%s takes the 32-bit %s of an RRSIG as it is' % (nm, x.a[1]), r.f['span'])
