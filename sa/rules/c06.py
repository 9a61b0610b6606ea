"""The built-in trust anchors are exactly the IANA root anchors.

The value root_hints returns is derived by abstract interpretation of its compiled body (constant folding of
the hex literals included) in every non-test configuration that is built: library and server.  The resulting
literal set of DS records is compared with IANA's published anchors.  Where the DS records that verify_dnskeys is
given come from is decided by the rule of C04, whose violations about them are violations here too.
"""
RULE = 'constant value of root_hints, per configuration, equals the two IANA DS records'
from base import *
from rules import c04

IANA = {
    19036: (8, 2, '49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB5'),
    20326: (8, 2, 'E06D44B80B8F1D39A95C0B0D7C65D08458E880409BBC683457104237C7F8EC8D'),
}


def check(ctx, rep):
    for cfg in ('lib', 'bin'):
        P = ctx.prog(cfg)
        fs = rep.need('root_hints', cfg)
        for f in fs:
            r = ctx.run(f, cfg)
            w = f['span']
            if not r.ok:
                rep.unknown(cfg, r.why, w)
                continue
            for st, v in r.rets:
                es = elems(v)
                if es is None:
                    bad = r.imprecise(v)
                    rep.unknown(cfg + ':list', 'anchor list not a literal: %s' % show(v)[:200], w)
                    continue
                got = []
                for e in es:
                    kt, alg, dt, dg = (getf(P, e, 'rr::DS', n) for n in ('key_tag', 'alg', 'digest_type', 'digest'))
                    nm = nametext(getf(P, e, 'rr::DS', 'name'))
                    if any(r.imprecise(x) is not None for x in (kt, alg, dt, dg, nm)):
                        rep.unknown(cfg + ':anchor', 'anchor not constant: %s' % show(e)[:200], w)
                        continue
                    try:
                        got.append((evalt(nm, {}), evalt(kt, {}), evalt(alg, {}), evalt(dt, {}), evalt(dg, {})))
                    except NoVal:
                        rep.unknown(cfg + ':anchor', 'anchor not constant: %s' % show(e)[:200], w)
                want = {(b'.', k, a, d, bytes.fromhex(h)) for k, (a, d, h) in IANA.items()}
                if len(got) == len(es):
                    for g in got:
                        rep.judge('%s:anchor%d' % (cfg, g[1]), g in want, 'name %r tag %d alg %d digest type %d digest %s' % (g[0].decode(), g[1], g[2], g[3], g[4].hex() if isinstance(g[4], bytes) else g[4]), w)
                    for x in want:
                        rep.judge('%s:has%d' % (cfg, x[1]), x in got, 'IANA anchor %d present' % x[1], w)
                    rep.judge(cfg + ':count', len(got) == len(set(got)), 'no duplicates', w)
    # no other way into the trusted set: what C04 finds wrong with it
    sub = type(rep)(rep.pid, ctx)
    c04.check(ctx, sub)
    for s, k, d, w in sub.items:
        if s == 'bad' and k.split(':')[0] in ('anchor', 'ds', 'ds-zone', 'ds-set', 'ds-signer', 'ds-owner'):
            rep._add(s, k, d, w)
