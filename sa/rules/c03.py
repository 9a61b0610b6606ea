"""The bytes checked by a signature are the canonical signed RRset.

The byte string handed to ring on every accepting path of verify_rrsig is derived as: a head, and a loop that appends
one block per record of the (sorted) record list.  The head must be exactly type, algorithm, labels, original TTL,
expiration, inception, key tag and signer name of the RRSIG.  For each record type and each relation between the
RRSIG's label count and the owner's, the block (with the record type filled in) must be exactly: the owner (or, for
types other than NSEC when the RRSIG counts fewer labels, 1, '*' and the last `labels` labels), type, class IN,
original TTL and length-prefixed RDATA; with more labels than the owner has, no block may be reachable.  Every record
has to contribute a block.  The name helpers involved are checked against their own closed forms, and the RDATA writers
by the obligations of C16.
"""
RULE = 'derived form of the signed byte string, block by block, tabulated over record types and label counts'
from vs import *
import names
from rules import c01


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_rrsig'):
        msgs(rep, r)
    names.all_helpers(ctx, rep, names.write_name, names.labels, names.tnl)
    # the records of the RRset: the set of records handed to each check
    r = stream_run(ctx, rep)
    if r:
        sub = type(rep)(rep.pid, ctx)
        c01.stream(ctx, sub, r)
        for s, k, d, w in sub.items:
            if k == 'add:complete' and s in ('bad', 'ok'):
                rep._add(s, 'rrset', d, w)


def head_spec(sg):
    f = lambda n: mk('fld', sg, n)
    return [(16, f('ty')), (8, f('alg')), (8, f('labels')), (32, f('orig_ttl')), (32, f('expiration')), (32, f('inception')), (16, f('key_tag'))], mk('wname', mk('fld', f('key_name'), '0'))


def head(rep, r, t, sg, w):
    spec, nm = head_spec(sg)
    want = [be(b, x) for b, x in spec] + [nm]
    got = parts(t)
    if got == want:
        return rep.good('head', 'RRSIG fields in order', w)
    if any(x in r.I.phis for x in subterms(t)) or r.imprecise(t) is not None:
        return rep.unknown('head', show(t)[:200], w)
    rep.bad('head', 'the signed bytes start with %s' % ' ++ '.join(show(x)[:60] for x in got), w)


def msgs(rep, r):
    w, sg = r.f['span'], r.p(0)
    n = 0
    seen = set()
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            for t in sigoks(c):
                M = t.a[2]
                n += 1
                if M not in seen:
                    seen.add(M)
                    message(rep, r, M, sg, w)
                end(rep, r, c, M, w)
    rep.floor('accepting paths', n, 1)


def end(rep, r, c, M, w):
    if M.op != 'phi':
        return
    d = loop_done(r, c, M)
    if d:
        rep.good('all', 'the signature is checked after the last record', w)
        if any(o in ('take', 'skip', 'step_by', 'take_while', 'skip_while', 'map_while', 'filter', 'filter_map') for t in d for o in t.a[1]):
            rep.unknown('all', 'records are selected by %s' % (d[0].a[1],), w)
    else:
        rep.unknown('all', 'how the loop over the records ends is not known', w)


def message(rep, r, M, sg, w):
    inc = r.phi(M)
    if inc is None:
        rep.unknown('message', show(M)[:160], w)
        if not any(x in r.I.phis for x in subterms(M)) and r.imprecise(M) is None and not any(x.op in ('comp', 'concat', 'fold', 'flat') for x in subterms(M)):
            rep.bad('message', 'the signed bytes do not depend on the records: %s' % show(M)[:160], w)
        return
    blocks = []
    for v, fs in inc:
        ps = parts(v)
        if v is M:
            skip(rep, r, fs, w)
        elif ps and ps[0] is M:
            blocks.append((ps[1:], fs))
        elif any(x is M for x in subterms(v)):
            rep.unknown('message', show(v)[:160], w)
            return
        else:
            head(rep, r, v, sg, w)
    recs = {x.a[0] for ps, _ in blocks for y in ps for x in subterms(y) if x.op == 'rdata_lp' and x.a[0].op != 'sbv'}
    if len(recs) != 1:
        if not recs and blocks and all(r.imprecise(y) is None and not any(x in r.I.phis for x in subterms(y)) for ps, _ in blocks for y in ps):
            rep.bad('block', 'no RDATA is signed: %s' % [show(y)[:60] for y in blocks[0][0]], w)
        else:
            rep.unknown('block', '%d records in a block' % len(recs), w)
        return
    rec = recs.pop()
    if rec.op != 'idx' or rec.a[0] is not r.p(2):
        rep.unknown('block', 'the record is %s' % show(rec)[:120], w)
        return
    for ps, fs in blocks:
        if any(t.op == 'kept' for c in fs for t in c.d):
            rep.bad('all', 'only some records are signed over', w)
    table(rep, r, blocks, rec, sg, w)


def skip(rep, r, fs, w):
    for c in fs:
        if any(t.op in ('eq', 'exists', 'lexlt') or any(x in r.I.phis for x in subterms(t)) for t in c.d if t.op != 'done'):
            rep.unknown('all', 'a record may be left out when %s' % str(c)[:200], w)
        else:
            rep.bad('all', 'a record is left out of the signed bytes when %s' % str(c)[:300], w)


def fix(ps, env):
    """Parts with the constants worked out at env: bytes and tokens."""
    out = []

    def put(x):
        if isinstance(x, bytes):
            if out and isinstance(out[-1], bytes):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append(x)
    for p in ps:
        try:
            v = evalt(p, env)
            put(bytes(v))
            continue
        except (NoVal, TypeError, ValueError):
            pass
        if p.op == 'ite':
            try:
                for q in fix(parts(p.a[1] if evalt(p.a[0], env) else p.a[2]), env):
                    put(q)
                continue
            except NoVal:
                pass
        if p.op == 'case':
            try:
                d = evalt(p.a[0], env)
                hit = next((y for s, y in p.a[1] if (s.has(d) if isinstance(s, ISet) else d in s)), None)
                if hit is not None:
                    for q in fix(parts(hit), env):
                        put(q)
                    continue
            except NoVal:
                pass
        put(p)
    return out


def table(rep, r, blocks, rec, sg, w):
    P = r.P
    rrp = adt_path(P, 'rr::RR')
    recty = r.I.tt.get(rec)
    nm = mk('fld', mk('rrname', rec), '0')
    NL, LB = mk('nlabels', nm), mk('fld', sg, 'labels')
    D = mk('discr', rec)
    TY, ottl = mk('fld', sg, 'ty'), mk('fld', sg, 'orig_ttl')
    allt = [x for ps, fs in blocks for c in fs for t in c.d for x in subterms(t)] + [x for ps, _ in blocks for p in ps for x in subterms(p)]
    generic = any(x is D for x in allt)
    dk = mk('fld', rec, 'name')
    names_ = (nm, mk('fld', dk, '0'))
    if not generic:
        # an instance for one concrete record type
        nm = next((x for x in names_ if any(y is x for y in allt)), nm)
        NL = mk('nlabels', nm)
    bad, ok_ = {}, 0
    NLs = {mk('nlabels', x) for x in names_}
    lens = {}
    variants = list(enumerate(P.adt[rrp]['v'])) if generic else [(None, None)]
    for i, var in variants:
        for nlv in range(0, 6):
            for lb in range(0, 7):
                env = {D: i} if generic else {}
                for x in NLs:
                    env[x] = nlv
                env[LB] = lb
                if not generic:
                    env[TY] = 48    # every record is of the signature's type (C01)
                if generic:
                    num_ = RRTYPES.get(var['n'])
                    if num_ is None:
                        continue
                    num_ = num_[0]
                    env[mk('rrty', rec)] = num_
                    env[TY] = num_
                got = []
                for ps, fs in blocks:
                    h = False
                    for c in fs:
                        k = True
                        for t, s in c.d.items():
                            try:
                                if not s.has(evalt(t, env)):
                                    k = False
                                    break
                            except NoVal:
                                pass
                        h = h or k
                    if h:
                        got.append(fix(ps, env))
                isn = num_ == 47 if generic else None
                if not generic:
                    # DNSKEY instance
                    num_, isn = 48, False
                kind = 'none' if (not isn and lb > nlv) else 'wild' if (not isn and lb < nlv) else 'own'
                name = [b'\x01*', mk('wname', mk('tnl', nm, LB))] if kind == 'wild' else [mk('wname', nm)]
                tail = num_.to_bytes(2, 'big') + b'\0\x01'
                want = name + [tail, be(32, ottl), mk('rdata_lp', rec)]
                if lb == 0 and kind == 'wild':
                    alts = [want, [b'\x01*\0' + tail, be(32, ottl), mk('rdata_lp', rec)]]
                else:
                    alts = [want]
                cell = '%s, %s labels' % (var['n'] if var else 'DNSKEY', 'as many' if lb == nlv else 'fewer' if lb < nlv else 'more')
                if kind == 'none':
                    if got:
                        bad.setdefault(('more', cell), 'an owner of %d labels is accepted under an RRSIG counting %d' % (nlv, lb))
                    else:
                        ok_ += 1
                    continue
                if not got:
                    bad.setdefault(('lost', cell), 'no block is signed for an owner of %d labels under an RRSIG counting %d' % (nlv, lb))
                    continue
                for g in got:
                    if g in alts:
                        ok_ += 1
                    elif any(r.imprecise(x) is not None or any(y in r.I.phis for y in subterms(x)) for x in g if not isinstance(x, bytes)):
                        rep.unknown('block', '%s: %s' % (cell, [x if isinstance(x, bytes) else show(x)[:60] for x in g]), w)
                    else:
                        bad.setdefault(('block', cell), 'signs %s' % ' ++ '.join(repr(x) if isinstance(x, bytes) else show(x)[:70] for x in g))
    vague = [t for ps, fs in blocks for c in fs for t in c.d if any(x in r.I.phis for x in subterms(t))]
    for (k, cell), d in list(bad.items())[:12]:
        rep.judge('block:' + k, None if vague and k in ('more', 'lost') else False, '%s: %s' % (cell, d), w)
    if not bad:
        rep.good('block', '%d cells (type x label counts) have exactly the canonical block' % ok_, w)
