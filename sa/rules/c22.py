"""JSON renderings are well-formed JSON.

The text each renderer returns is derived as a concatenation of constants and rendered fields (loops as carried texts),
for every record type, and read by a JSON recogniser over all its pieces.  Text fields may stand in a string as they
are only where the conditions of that return exclude quotes, backslashes and control characters; a name's text excludes
them by its own validity (C19).  The outermost object has to carry the record's own name and its type's tag.
"""
RULE = 'JSON recogniser over the derived text of every renderer; type and name tags per record type'
from jsonfa import *


def check(ctx, rep):
    P = ctx.prog()
    n = 0
    enum = adt_path(P, 'rr::RR')
    if enum is None:
        return rep.bad('anchor:RR', 'record type not found')
    for f in P.fns:
        if 'body' not in f or not f.get('local') or f['name'] != 'json' or '{closure' in f['path']:
            continue
        ty = P.types[P.deref_ty(f['body']['locals'][1])].get('p') if f['body']['argc'] == 1 else None
        if ty == enum:
            for d, v in enumerate(P.adt[enum]['v']):
                r = run_variant(ctx, f, d, skip=('RR::json', 'RR as Record::json'))
                n += one(rep, r, f, v['n'])
        elif ty in P.adt and ty.split('::')[-1] in RRTYPES:
            r = ctx.run(f, skip=('RR::json', 'RR as Record::json'))
            n += one(rep, r, f, ty.split('::')[-1])
    rep.floor('renderers', n, len(RRTYPES))
    document(ctx, rep)


def one(rep, r, f, var):
    what = '%s::%s' % (var, f['path'].split('::')[-1])
    if not r.ok or r.unmod():
        rep.unknown('render', '%s: %s' % (what, r.why or 'unmodelled %s' % sorted(r.unmod())[:2]), f['span'])
        return 1

    def tags(seen, what, w):
        t, m = seen.get('type'), seen.get('name')
        word = t[0].decode() if t and len(t) == 1 and isinstance(t[0], bytes) else None
        want = RRTYPES[var][1] if var in RRTYPES else None
        if want is not None:
            rep.judge('tag:type', word is not None and word.upper() == want, '%s: type "%s"' % (what, word if t else 'missing'), w)
        x = mk('fld', mk('rrname', r.p(0)), '0')
        own = (x, mk('fld', mk('fld', r.p(0), 'name'), '0'), mk('fld', mk('fld', mk('fld', r.p(0), var + '.0'), 'name'), '0'))
        ok_ = m is not None and len(m) == 1 and m[0] in own
        rep.judge('tag:name', ok_ or (None if m is not None and len(m) == 1 and not isinstance(m[0], bytes) and m[0].op != 'fld' else False), '%s: name %s' % (what, '..' if ok_ else [show(y)[:60] if not isinstance(y, bytes) else y for y in m] if m is not None else 'missing'), w)
    judge_text(rep, r, 'render', what, f['span'], tags)
    return 1


def document(ctx, rep):
    """The document of the browser wrapper."""
    P = ctx.prog('wasm')
    fs = [f for f in P.fns if 'body' in f and f.get('local') and f['name'] == 'verify_byte_stream' and '{closure' not in f['path']]
    if not fs:
        return rep.bad('anchor:verify_byte_stream', 'wrapper not found')
    for f in fs:
        r = ctx.run(f, 'wasm')
        if not r.ok:
            rep.unknown('document', r.why, f['span'])
            continue
        judge_text(rep, r, 'document', 'document', f['span'])
