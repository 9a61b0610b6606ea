"""Record type codes and names agree everywhere.

For each variant of the record enum the type number it reports, its JSON type tag, and for each type number
the parser's variant and the mnemonic table are derived by abstract interpretation and compared with the IANA
registry.  The parser's success paths are partitioned by the type and class words they were taken on.
"""
RULE = 'per-variant constants of ty/json, per-type partition of the parser and mnemonic table, against IANA numbers'
from base import *
import framing


def check(ctx, rep):
    P = ctx.prog()
    rr = adt_path(P, 'rr::RR')
    if rr is None:
        return rep.bad('anchor:RR', 'record enum not found')
    vs = P.adt[rr]['v']
    have = {v['n']: i for i, v in enumerate(vs)}
    for n in RRTYPES:
        rep.judge('variant:' + n, n in have, 'record variant %s' % n)
    # reported type
    tyfns = [f for k in ('RR::ty', 'RR as Record::ty') for f in ctx.fns(k) if self_is(P, f, rr)]
    rep.floor('type reporters', len(tyfns), 1)
    if True:
        for f in tyfns:
            for n, d in have.items():
                if n not in RRTYPES:
                    rep.unknown('ty:' + n, 'unlisted record variant', f['span'])
                    continue
                r = run_variant(ctx, f, d)
                if not r.ok:
                    rep.unknown('ty:' + n, r.why, f['span'])
                    continue
                for st, v in r.rets:
                    try:
                        x = evalt(v, {mk('discr', r.p(0)): d})
                        rep.judge('ty:' + n, x == RRTYPES[n][0], '%s reports type %d' % (n, x), f['span'])
                    except NoVal:
                        rep.unknown('ty:' + n, show(v)[:200], f['span'])
    # JSON tag
    jfns = [f for k in ('RR::json', 'RR as Record::json') for f in ctx.fns(k) if self_is(P, f, rr)]
    rep.floor('JSON renderers', len(jfns), 1)
    for f in jfns:
        for n, d in have.items():
            if n not in RRTYPES:
                continue
            r = run_variant(ctx, f, d, skip=('RR::json', 'RR as Record::json'))
            if not r.ok:
                rep.unknown('json:' + n, r.why, f['span'])
                continue
            heads = set()
            for st, v in r.rets:
                heads |= leading(r, v)
            for h in heads:
                if h.op != 'bytes':
                    rep.unknown('json:' + n, 'starts with %s' % show(h)[:100], f['span'])
                    continue
                import re
                m = re.match(rb'\{"type":"([^"]*)"', h.a[0])
                tag = m.group(1).decode() if m else None
                rep.judge('json:' + n, None if m is None else tag.upper() == RRTYPES[n][1], 'JSON of %s starts %r' % (n, h.a[0][:40]), f['span'])
    # mnemonics
    f = find(ctx, rep, 'RR::ty_to_rr_name', ['u16'], 'std::option::Option<&str>')
    if f is not None:
        r = ctx.run(f)
        if not r.ok:
            rep.unknown('mnemonic', r.why, f['span'])
        else:
            mnemonics(rep, r, f['span'])
    # parser
    f = find(ctx, rep, 'parse_wire_packet_rr')
    if f is not None:
        parser(ctx, rep, f, vs)
    framing.stream(ctx, rep, True)


def mnemonics(rep, r, w):
    p = r.p(0)
    got = {}
    und = set()
    cover = EMPTY
    for st, v in r.rets:
        dom = EMPTY
        for c in st.facts:
            dom = iunion(dom, iinter(F.cset(c, p), irange(0, 65535)))
        cover = iunion(cover, dom)
        if is_none(v):
            for n in RRTYPES.values():
                if dom.has(n[0]):
                    got.setdefault(n[0], set()).add(None)
            continue
        lo, cnt = 0, 0
        vals = [x for a, b in dom.iv for x in range(a, min(b, a + 70000) + 1)] if hasattr(dom, 'iv') else [x for x in range(65536) if dom.has(x)]
        for x in vals:
            try:
                y = evalt(pay(v), {p: x}) if is_some(v) else None
                got.setdefault(x, set()).add(y)
            except NoVal:
                und.add(x)
    for n, (num_, m) in RRTYPES.items():
        if num_ in und or num_ not in got:
            rep.unknown('mnemonic:' + n, 'not derived', w)
        else:
            rep.judge('mnemonic:' + n, got[num_] == {m.encode()}, 'type %d is called %s' % (num_, sorted(map(str, got[num_]))), w)
    extra = [x for x in got if x not in BYNUM and got[x] != {None}]
    for x in extra[:3]:
        rep.bad('mnemonic:extra', 'type %d is called %s' % (x, sorted(map(str, got[x]))), w)
    if not extra and not und:
        rep.good('mnemonic:none', 'no other type has a mnemonic', w)


def parser(ctx, rep, f, vs):
    r = ctx.run(f)
    w = f['span']
    if not r.ok:
        return rep.unknown('parser', r.why, w)
    seen = {}
    for st, v in r.rets:
        if is_err(v):
            continue
        if not is_ok(v):
            rep.unknown('parser', 'result %s' % show(v)[:100], w)
            continue
        t = pay(v)
        rrv = pay(t) if t.op == 'agg' else None
        if rrv is None or rrv.op != 'agg' or not str(rrv.a[0]).endswith('rr::RR'):
            rep.unknown('parser', 'record not an explicit variant: %s' % show(rrv if rrv is not None else t)[:150], w)
            continue
        name = vs[rrv.a[1]]['n']
        used = mk('namelen_in', r.p(0) if r.p(0).op != 'ref' else mk('param', 'p0'), r.p(1))
        # the type and class words: two big-endian words right after the owner name
        inp = mk('param', 'p0')
        tw = frombe(16, slice_(inp, used, add(used, num(2))))
        cw = frombe(16, slice_(inp, add(used, num(2)), add(used, num(4))))
        tys, cls = vset(st.facts, tw), vset(st.facts, cw)
        if tys == FULL or isubset(irange(0, 65535), tys):
            bad = [c for c in st.facts if any(x.op == 'unk' for t_ in c.d for x in subterms(t_))]
            (rep.unknown if bad else rep.bad)('parser:' + name, '%s is built whatever the type word is' % name, w)
        else:
            for num_ in [x for x in BYNUM if tys.has(x)]:
                rep.judge('parser:%d' % num_, BYNUM[num_][0] == name, 'type %d is parsed as %s' % (num_, name), w)
                seen[num_] = name
            rest = iinter(tys, icompl(iset(*BYNUM), irange(0, 65535)))
            if not rest.empty():
                rep.bad('parser:other', 'types %r are parsed as %s' % (rest, name), w)
        rep.judge('class:' + name, isubset(cls, iset(1)), '%s is built for class words %r' % (name, cls), w)
    for num_ in BYNUM:
        rep.judge('parsed:%d' % num_, num_ in seen or None, 'type %d has a success path' % num_, w)
