"""Only clean authenticated responses contribute to a proof.

The guard under which ProofBuilder::process_response can return success is derived by abstract interpretation
(the header parser inlined).  Its constraints on the 12 header bytes are tabulated for all 65536 flag words and
for the boundary values of the ID and the counts; every accepted header must be clean, and every refused path
must leave the proof as it was.
"""
RULE = 'truth table of the acceptance guard over all flag words and header counts; refused paths keep the state'
from base import *


def clean(h):
    idn, fl, qd, an = (int.from_bytes(h[i:i + 2], 'big') for i in (0, 2, 4, 6))
    why = []
    if idn != 0:
        why.append('ID %d' % idn)
    if not fl & 0x8000:
        why.append('not a response')
    if fl & 0x7800:
        why.append('opcode %d' % (fl >> 11 & 15))
    if fl & 0x0200:
        why.append('truncated')
    if fl & 0x000f:
        why.append('RCODE %d' % (fl & 15))
    if not fl & 0x0020:
        why.append('AD bit clear')
    if qd != 1:
        why.append('%d questions' % qd)
    if an < 1:
        why.append('no answers')
    return why


def headers(tier):
    base = [0, 0x81a0, 1, 1, 0, 0]
    def h(**k):
        b = list(base)
        for i, v in k.items():
            b[int(i[1:])] = v
        return b''.join(x.to_bytes(2, 'big') for x in b)
    for fl in range(65536):
        yield h(_1=fl)
    vals = sorted({0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535} | {1 << i for i in range(16)})
    if tier == 'thorough':
        vals = range(65536)
    for v in vals:
        yield h(_0=v)
        yield h(_2=v)
        yield h(_3=v)
        yield h(_4=v)
        yield h(_5=v)


def depends(t, atoms):
    return any(x in atoms for x in subterms(t))


def check(ctx, rep):
    P = ctx.prog()
    fs = rep.need('ProofBuilder::process_response')
    for f in fs:
        r = ctx.run(f)
        w = f['span']
        if not r.ok:
            rep.unknown('process_response', r.why, w)
            continue
        inp = r.p(1)
        nok = 0
        conjs = []
        for st, v in r.rets:
            if is_err(v):
                o = r.out(st, 0)
                keep = mk('fld', mk('param', 'p0'), 'proof')
                pr = getf(P, o, 'query::ProofBuilder', 'proof')
                if pr is keep:
                    rep.good('refused', 'a refused response leaves the proof unchanged', w)
                elif r.imprecise(pr) is not None:
                    rep.unknown('refused', show(pr)[:200], w)
                else:
                    rep.bad('refused', 'a refused response leaves the proof as %s' % show(pr)[:200], w)
                continue
            if is_ok(v) or True:
                nok += 1
                for c in st.facts:
                    cs, unk = [], None
                    for t, s in c.d.items():
                        if any(x.op in ('phi', 'elem', 'rdname', 'prr', 'prr_rr', 'namelen_in', 'rrlen_in', 'done', 'fld') for x in subterms(t)):
                            if any(x.op in ('idx', 'frombe') and x.a[-1 if x.op == 'frombe' else 0].op == 'phi' or x.op == 'frombe' and x.a[1].op == 'slice' and x.a[1].a[0].op == 'phi' for x in subterms(t)) \
                                    and not any(x.op in ('rdname', 'prr', 'prr_rr', 'fld') for x in subterms(t)):
                                unk = t     # input bytes at a position that was not derived
                            continue
                        b = r.imprecise(t)
                        if b is not None:
                            unk = b
                        cs.append((t, s))
                    conjs.append((cs, unk))
        rep.floor('accepting paths', nok, 1)
        # memoise the conjunctions: several accepting paths share the same header constraints
        uniq = {}
        for cs, unk in conjs:
            uniq[(frozenset((t.id, s) for t, s in cs), unk)] = (cs, unk)
        rep.judge('constraints', any(cs for cs, _ in conjs) or (None if any(u is not None for _, u in conjs) else False), '%d header constraints on the accepting paths' % max(len(cs) for cs, _ in conjs), w)
        nacc = n = 0
        for h in headers(ctx.tier):
            n += 1
            env = {inp: h + bytes(100)}
            acc = undec = False
            for cs, unk in uniq.values():
                okc = True
                for t, s in cs:
                    try:
                        if not s.has(evalt(t, env)):
                            okc = False
                            break
                    except NoVal:
                        undec = True
                if okc:
                    acc = True
                    undec = undec or unk is not None
                    break
            if not acc:
                continue
            nacc += 1
            why = clean(h)
            if why:
                for x in why:
                    x = x.split(' ')[0] if x[0] in 'IROo' or x[0].isdigit() else x
                    if undec:
                        rep.unknown('header:' + x.replace(' ', '-'), 'header %s not decided' % h.hex(), w)
                    else:
                        if ('bad', x) not in rep.seen:
                            rep.seen[('bad', x)] = 1
                            rep.bad('header:' + ('questions' if x.isdigit() else x).replace(' ', '-'), 'header %s (%s) is accepted' % (h.hex(), ', '.join(why)), w)
        rep.judge('some', nacc > 0 or None, '%d of %d tabulated headers accepted, all clean ones considered' % (nacc, n), w)
        rep.good('table', '%d headers tabulated, %d accepted' % (n, nacc), w)
