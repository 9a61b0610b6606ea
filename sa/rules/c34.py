"""The browser wrapper adds nothing to and hides nothing from validation.

The wrapper's exported functions are analysed with the library's functions abstracted (their own rules are C01-C33).
The text of a verified proof is derived and read by the JSON recogniser: on the paths on which parsing of exactly the
bytes given and validation of exactly what was parsed succeeded it has to carry the window and cache lifetime of that
validation under their own names and, in one loop or sequence over all of them, the rendering of each verified record;
on every other path an error.  The proof building functions are judged by their values: which name and type the builder
is made for, that the queue of queries is extended at the end by all queries handed out in order and emptied from the
front, that each response is fed as it is, and that the proof handed out is the builder's.
"""
RULE = 'derived values and texts of the exported wrapper functions against the library calls they stand for'
from witness import *
from jsonfa import *
import jsonfa
import cuts as CUTS

WINDOW = ('valid_from', 'expires', 'max_cache_ttl')
MAXLEN = 65535


def check(ctx, rep):
    P = ctx.prog('wasm')
    for name, judge in (('verify_byte_stream', document), ('init_proof_builder', init), ('process_query_response', respond),
                        ('get_next_query', query), ('get_unverified_proof', proof)):
        fs = [f for f in P.fns if 'body' in f and f.get('local') and f['name'] == name and '{closure' not in f['path'] and '::_::' not in f['path']]
        if not fs:
            rep.bad('anchor:' + name, 'exported function not found')
        for f in fs:
            r = ctx.run(f, 'wasm', extra=CUTS.WASM)
            if not r.ok or r.unmod():
                rep.unknown(name, r.why or 'unmodelled %s' % sorted(r.unmod())[:2], f['span'])
                continue
            judge(rep, r, f, f['span'])
            panics(rep, r, f, name)


def panics(rep, r, f, name):
    """No argument makes the function panic."""
    pr = Prover(r, Types(r.P), jsonfa.Text(r))
    wi = Witness(pr)
    for e in r.evs:
        if e.kind not in ('assert', 'panic'):
            continue
        good = e.args[0] if e.kind == 'assert' else num(0)
        key = 'panic:%s:%s' % (name, e.name)
        left = [c for c in e.facts if not pr.refuted(c, [(good, 0)])]
        if not left:
            rep.good(key, 'cannot fail', e.span)
            continue
        found = next((x for x in (wi.find(e, c, good) for c in left) if x is not None), None)
        if found is not None:
            rep.bad(key, 'the check "%s" fails for %s' % (e.name, found), e.span)
        else:
            rep.unknown(key, 'not decided', e.span)


def fine(r, *ts):
    return all(r.imprecise(t) is None for t in ts)


def judge(rep, r, key, good, why, w, *ts):
    rep.judge(key, True if good else False if fine(r, *ts) else None, why, w)


# ---------------------------------------------------------------- the document
class Doc(Text):
    def __init__(self, r, want):
        Text.__init__(self, r)
        self.want = want            # the records of the validation
        self.recs = set()

    def one(self, c, q, facts, env):
        if q.op == 'rrjson':
            if c.arr != 'verified_rrs' or c.stack != ('o', 'a'):
                raise Bad('a record is rendered outside the list verified_rrs')
            self.recs.add(q.a[0])
        return Text.one(self, c, q, facts, env)


def document(rep, r, f, w):
    S = r.p(0)
    parsed = mk('parsed', S)
    ver = mk('verified', parsed)
    rrs = mk('fld', ver, 'verified_rrs')
    for e in r.evs:
        if e.kind == 'lib':
            want = S if e.name == 'parse' else parsed
            judge(rep, r, 'document:' + e.name, e.args[0] is want, '%s is called on %s' % (e.name, show(e.args[0])[:120]), e.span, e.args[0])
    for v, fs in [x for st, v in r.rets for x in arms(v, st.facts)]:
        for c in fs:
            a, b = F.cset(c, mk('parses', S)).single(), F.cset(c, mk('verifies', parsed)).single()
            kind = 'success' if a == 1 and b == 1 else 'failure' if a == 0 or b == 0 else None
            if kind is None:
                odd = [t for t in c.d if t.op in ('parses', 'verifies') and t not in (mk('parses', S), mk('verifies', parsed))]
                if not fine(r, v) or not any(t.op == 'parses' for t in c.d):
                    kind = 'unvalidated'
                else:
                    kind = 'unvalidated' if not odd else 'other'
            text(rep, r, v, (c,), kind, ver, rrs, w)


def arms(v, fs):
    """A value told apart by the outcomes of parsing and validation it depends on."""
    for q in parts(v):
        if q.op == 'ite' and any(y.op in ('parses', 'verifies') for y in subterms(q.a[0])):
            out = []
            for k, x in ((1, q.a[1]), (0, q.a[2])):
                f1 = F.dnf_assume(fs, q.a[0], iset(k))
                if f1:
                    u = NIL
                    for z in parts(v):
                        u = ext(u, x if z is q else z)
                    out += arms(u, f1)
            return out
    return [(v, fs)]


def text(rep, r, v, fs, kind, ver, rrs, w):
    d = Doc(r, rrs)
    try:
        cs = d.text({START}, v, fs)
    except (Open, Bad) as e:
        if isinstance(e, Bad) and 'record' in str(e):
            return rep.bad('document:records', str(e), w)
        rep.unknown('document:text', str(e)[:200], w)
        if kind == 'success' and (d.recs or any(y.op == 'rrjson' for p in d.heads for x, _ in r.I.phis[p] for y in subterms(x))):
            records(rep, r, v, fs, rrs, w)
        return
    for c in cs:
        seen = dict(c.seen)
        if 'error' in seen:
            if kind == 'success':
                if any(t.op not in ('parses', 'verifies') and not isubset(rng(t), s) for x in fs for t, s in x.d.items() if not t.op == 'done'):
                    rep.judge('document:hidden', None if not all(fine(r, t) for x in fs for t in x.d) else False,
                              'a successful validation is reported as an error under %s' % str(fs[0])[-200:], w)
                else:
                    rep.bad('document:hidden', 'a successful validation is reported as an error', w)
            else:
                rep.good('document:error', 'an error is reported where validation failed', w)
            if d.recs or 'verified_rrs' in seen:
                rep.judge('document:records', False if d.recs else None, 'records are reported along with an error', w)
            continue
        if kind in ('failure', 'unvalidated'):
            rep.judge('document:error', False if fine(r, v) else None, 'a document without an error is returned though %s' %
                      ('parsing or validation failed' if kind == 'failure' else 'nothing was validated'), w)
            continue
        for k in WINDOW:
            x = seen.get(k)
            want = mk('dec', mk('fld', ver, k))
            if x is None:
                rep.bad('document:' + k, '%s is not reported' % k, w)
            elif len(x) == 1 and x[0] is want:
                rep.good('document:' + k, 'the validation\'s own %s' % k, w)
            else:
                ts = [y for y in x if not isinstance(y, bytes)]
                judge(rep, r, 'document:' + k, False, '%s is reported as %s' % (k, [show(y)[:100] if not isinstance(y, bytes) else y for y in x]), w, *ts)
        if 'verified_rrs' not in seen:
            rep.bad('document:records', 'verified_rrs is not reported', w)
            continue
        records(rep, r, v, fs, rrs, w)


def reach(r, v):
    """The values a value is made of, through loops."""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in r.I.phis and y not in seen:
                seen.add(y)
                todo += [z for z, _ in r.I.phis[y]]
    return seen


def records(rep, r, v, fs, rrs, w):
    """Each verified record is rendered once, in order."""
    k = 'document:records'
    phis = reach(r, v)
    recs = {y.a[0] for x in [v] + [z for p in phis for z, _ in r.I.phis[p]] for y in subterms(x) if y.op == 'rrjson'}
    if not recs:
        if all(F.cset(c, seqlen(rrs)).single() == 0 for c in fs):
            return rep.good(k, 'no records', w)
        return judge(rep, r, k, False, 'no record is reported', w, v)
    for x in recs:
        if x.op != 'idx' or x.a[0] is not rrs:
            return judge(rep, r, k, False, 'what is reported is %s' % show(x)[:150], w, x)
    js = [y for y in parts(v) if y.op == 'joined']
    if js:
        return listed(rep, r, k, v, js, rrs, w)
    heads = [p for p in phis if any(y.op == 'rrjson' for x, _ in r.I.phis[p] for y in subterms(x))]
    if len({(p.a[0], p.a[1]) for p in heads}) != 1:
        return rep.unknown(k, '%d loops' % len(heads), w)
    each(rep, r, k, heads, v, parts, lambda q: q.op == 'rrjson', lambda q: q.a[0], rrs, 'record', fs, w)


def listed(rep, r, k, v, js, rrs, w):
    """The records rendered by a comprehension."""
    S = js[0].a[0]
    if len(js) != 1 or S.op != 'comp':
        return rep.unknown(k, show(S)[:100], w)
    if S.a[0] is not mk('over', rrs):
        return rep.unknown(k, 'records of %s' % show(S.a[0])[:100], w)
    if len(S.a[1]) == 1 and not list(S.a[1])[0][0]:
        (d, x), = S.a[1]
        if x.op == 'rrjson' and x.a[0].op == 'idx' and x.a[0].a[0] is rrs:
            return rep.good(k, 'every record is added once, in order', w)
    elif all(d for d, x in S.a[1]):
        return judge(rep, r, k, False, 'only some records are reported: %s' % show(S)[:200], w, S)
    rep.unknown(k, show(S)[:100], w)


def counts(ps, pred):
    """How many items there may be among pieces, by the conditions they depend on: [(conditions, items)]."""
    out = [({}, [])]
    for q in ps:
        if pred(q):
            out = [(e, xs + [q]) for e, xs in out]
        elif q.op == 'ite' and any(pred(y) for y in subterms(q)):
            nxt = []
            for e, xs in out:
                for b, arm in ((1, q.a[1]), (0, q.a[2])):
                    if e.get(q.a[0], b) == b:
                        for e2, ys in counts(parts(arm), pred):
                            if all(e.get(t, x) == x for t, x in e2.items()):
                                nxt.append(({**e, q.a[0]: b, **e2}, xs + ys))
            out = nxt
        elif q.op == 'case' and any(pred(y) for y in subterms(q)):
            return None
    return out if len(out) < 64 else None


def each(rep, r, key, heads, v, split, is_item, item, seq, what, after, w):
    """The loop carrying the heads adds exactly one item per element of seq, for all of them, in order."""
    span = mk('range', num(0), seqlen(seq))
    for p in heads:
        for x, fs in r.I.phis[p]:
            ps = split(x)
            if ps[:1] and ps[0] in heads and len(ps) == 1:
                if any(t.op == 'elem' and t.a[0] is span for c in fs for k in c.d for t in subterms(k)):
                    return judge(rep, r, key, False, 'a pass of the loop leaves a %s out' % what, w, *[t for c in fs for t in c.d])
                continue
            if not ps or ps[0] not in heads:
                # before the loop, or its first pass told apart
                ps = ps if split is chain else [None] + ps
                if not any(t.op == 'elem' and t.a[0] is span for c in fs for k in c.d for t in subterms(k)):
                    if any(is_item(q) for q in ps[1:]):
                        return rep.unknown(key, 'a %s is added before the loop' % what, w)
                    continue
            ns = counts(ps[1:], is_item)
            if ns is None:
                return rep.unknown(key, 'how many are added is not known', w)
            for e, items in ns:
                if len(items) != 1:
                    if not e and not items and not any(t.op == 'elem' and t.a[0] is span for c in fs for k in c.d for t in subterms(k)):
                        continue
                    return rep.judge(key, False if len(e) < 2 and fine(r, x, *e) else None, 'a pass of the loop adds %d %ss' % (len(items), what), w)
                q = item(items[0])
                if q.op != 'idx' or q.a[0] is not seq:
                    return judge(rep, r, key, False, 'a pass of the loop adds %s' % show(q)[:120], w, q)
                e = q.a[1]
                if e.op != 'elem':
                    return judge(rep, r, key, None if any(y.op in ('elem', 'phi') for y in subterms(e)) and e.op != 'lin' else False, 'which are added: %s' % show(e)[:100], w, e)
                if e.a[0] is not span:
                    if e.a[0].op in ('range', 'seqit', 'over'):
                        if not full(e, seq):
                            return judge(rep, r, key, False, 'only the %ss %s are added' % (what, show(e.a[0])[:100]), w, e.a[0])
                    else:
                        return rep.unknown(key, show(e.a[0])[:100], w)
            for c in fs:
                for t, s in c.d.items():
                    if t.op == 'kept' and any(y is seq for y in subterms(t)):
                        return rep.bad(key, 'only those %ss are added which %s lets through' % (what, t.a[0]), w)
    ops = {o if isinstance(o, str) else o.a[0] for c in after for t, s in c.d.items() if t.op == 'done' and s.single() == 1 and any(y is seq for y in subterms(t)) for o in t.a[1]}
    if ops & {'filter', 'filter_map', 'take_while', 'skip_while'}:
        for p in heads:
            for x, fs in r.I.phis[p]:
                for c in fs:
                    for t, s in c.d.items():
                        if t.op not in ('le0', 'eq0', 'done') and any(y.op == 'elem' and y.a[0] is span for y in subterms(t)) and not isubset(rng(t), s) and fine(r, t):
                            return rep.bad(key, 'only those %ss are added for which %s in %s' % (what, show(t)[-150:], s), w)
    rest = split(v)
    if rest[:1] and rest[0] in heads:
        ns = counts(rest[1:], is_item)
    else:
        ns = None
    for c in after:
        ends = [t for t, s in c.d.items() if t.op == 'done' and s.single() == 1 and any(y is seq for y in subterms(t))]
        if any(sum((o if isinstance(o, str) else o.a[0]) == 'rev' for o in t.a[1]) % 2 for t in ends):
            return rep.bad(key, 'the %ss are added backwards' % what, w)
        if ends or F.cset(c, seqlen(seq)).single() == 0:
            if ns is None:
                return rep.unknown(key, 'what comes after the loop is not known', w)
            if any(xs for e, xs in ns):
                return judge(rep, r, key, False, 'a %s is added after the loop over all of them' % what, w, v)
            continue
        if any(y.op == 'elem' and y.a[0] is span for t in c.d for y in subterms(t)):
            return judge(rep, r, key, False, 'the loop is left before all %ss were added' % what, w, *c.d)
        return rep.unknown(key, 'the end of the loop is not known', w)
    rep.good(key, 'every %s is added once, in order' % what, w)


# ---------------------------------------------------------------- proof building
def state(r, st):
    """(builder, queue) after the call."""
    o = r.out(st, 0)
    p = r.arg(0)
    if o is None:
        o = p
    if o.op == 'agg' and len(o.a[2]) == 2:
        return o.a[2]
    return mk('fld', o, '0'), mk('fld', o, '1')


def init(rep, r, f, w):
    N, ty = r.p(0), r.p(1)
    dotted = ext(N, mk('bytes', b'.'))
    last = mk('idx', N, sub(seqlen(N), num(1)))
    for st, v in r.rets:
        for c in st.facts:
            has_dot = dot_state(c, N, last)
            if has_dot == 'dead':
                continue
            if is_none(v):
                vs = {t.a[0]: s.single() for t, s in c.d.items() if t.op == 'validname'}
                want = N if has_dot else dotted if has_dot is False else None
                if want is not None and vs.get(want) == 0:
                    rep.good('init:refuses', 'no builder for what is no name', w)
                elif want is None and blind(c, N):
                    rep.bad('init:refuses', 'no builder unless %s is a name, whether the text given ends in "." or not' % show(list(vs)[0])[:60] if vs else 'no builder', w)
                elif want is not None and not vs:
                    judge(rep, r, 'init:refuses', False, 'no builder for a name, under %s' % str(c)[-200:], w, *c.d)
                elif want is not None and want not in vs:
                    judge(rep, r, 'init:refuses', False, 'no builder unless %s is a name' % show(list(vs)[0])[:100], w, *vs)
                else:
                    rep.unknown('init:refuses', str(c)[-200:], w)
                continue
            x = pay(v) if is_some(v) else None
            if x is None or x.op != 'agg' or len(x.a[2]) != 2:
                rep.unknown('init', show(v)[:100], w)
                continue
            b, q = x.a[2]
            if b.op != 'pbs' or b.a[0] != 'new':
                judge(rep, r, 'init:builder', False, 'the builder is %s' % show(b)[:100], w, b)
                continue
            n = b.a[1].a[0] if b.a[1].op == 'lower' else b.a[1]
            want = N if has_dot else dotted if has_dot is False else None
            if n is want:
                rep.good('init:name', 'the builder is made for the name given', w)
            elif n in (N, dotted) and want is None and blind(c, N):
                rep.bad('init:name', 'the builder is made for %s, whether the text given ends in "." or not' % show(n)[:60], w)
            elif n in (N, dotted) and want is None:
                rep.unknown('init:name', 'whether the name ends in "." is not known: %s' % str(c)[-200:], w)
            else:
                judge(rep, r, 'init:name', False, 'the builder is made for %s' % show(n)[:100], w, n)
            judge(rep, r, 'init:type', b.a[2] is ty, 'the builder is made for type %s' % show(b.a[2])[:60], w, b.a[2])
            q0 = mk('pq0', b)
            judge(rep, r, 'init:query', q.op == 'push' and q.a[0] is NIL and q.a[1] is q0 or q.op == 'arr' and q.a[0] == (q0,),
                  'the queries to send are %s' % show(q)[:150], w, q)


def blind(c, N):
    """The condition says nothing of the text given but whether it, with or without a ".", is a name."""
    return all(t.op == 'validname' or not any(y is N for y in subterms(t)) for t in c.d)


def dot_state(c, N, last):
    """Whether the text given ends in "." under the condition; None: not known."""
    n = F.cset(c, seqlen(N))
    if n.single() == 0:
        return False
    for t, s in c.d.items():
        if t.op == 'band' and s.single() == 1:
            if any(y is last for y in subterms(t)):
                for x in t.a[0] if isinstance(t.a[0], (tuple, frozenset)) else t.a:
                    if isinstance(x, T) and x.op == 'in' and x.a[0] is last and x.a[1].single() == 46:
                        return True
        if t.op in ('ends', 'strends', 'suffix') and t.a[0] is N and t.a[1].op == 'bytes' and t.a[1].a[0] == b'.':
            return s.single() == 1
    s = F.cset(c, last)
    if s.single() == 46:
        return True
    if not s.has(46):
        return False
    return None


def respond(rep, r, f, w):
    p, R = r.arg(0), r.p(1)
    B, Q = mk('fld', p, '0'), mk('fld', p, '1')
    acc = mk('accepted', B, R)
    qs = mk('qs', B, R)
    for e in r.evs:
        if e.kind == 'builder' and e.name == 'feed':
            judge(rep, r, 'respond:feed', e.args[0] is B and e.args[1] is R, 'the builder is fed %s' % show(e.args[1])[:150], e.span, *e.args)
        if e.kind == 'builder' and e.name != 'feed':
            judge(rep, r, 'respond:feed', e.name not in ('new', 'finish'), 'the builder is asked for %s' % e.name, e.span)
    for st, v in r.rets:
        b, q = state(r, st)
        for c in st.facts:
            n = F.cset(c, seqlen(R))
            a = F.cset(c, acc).single()
            if a is None:
                if n.lo() is not None and n.lo() > MAXLEN:
                    judge(rep, r, 'respond:oversize', b is B and q is Q, 'what is no message changes the state to %s, %s' % (show(b)[:60], show(q)[:60]), w, b, q)
                elif any(t.op == 'accepted' for t in c.d):
                    judge(rep, r, 'respond:feed', False, 'another response is fed: %s' % '; '.join(show(t)[:100] for t in c.d if t.op == 'accepted'), w, *c.d)
                else:
                    judge(rep, r, 'respond:feed', False, 'the response is not fed, under %s' % str(c)[-200:], w, *c.d)
            elif a == 0:
                judge(rep, r, 'respond:refused', (b is B or b.op == 'pbs' and b.a[0] == 'fed' and b.a[1] is B) and q is Q, 'a refused response leaves %s, %s' % (show(b)[:60], show(q)[:60]), w, b, q)
            else:
                want = mk('pbs', 'fed', B, R)
                judge(rep, r, 'respond:builder', b is want, 'the builder is left as %s' % show(b)[:120], w, b)
                extended(rep, r, c, q, Q, qs, w)


def chain(v):
    out = []
    while v.op == 'push':
        out.append(v.a[1])
        v = v.a[0]
    return [v] + out[::-1]


def extended(rep, r, c, q, Q, qs, w):
    """The queue is what it was and then all queries handed out."""
    k = 'respond:queue'
    if q in r.I.phis:
        entries = [x for x, _ in r.I.phis[q] if x.op != 'push' and x is not q]
        if any(x.op == 'ext' and any(y is q for y in subterms(x)) for x in entries):
            return judge(rep, r, k, False, 'the queries handed out do not go to the end of the queue: %s' % show([x for x in entries if x.op == 'ext'][0])[:120], w, q)
        for x in entries:
            if x is not Q:
                return judge(rep, r, k, False, 'the queue starts from %s' % show(x)[:100], w, x)
        heads = [p for p in r.I.phis if (p.a[0], p.a[1], p.a[3]) == (q.a[0], q.a[1], q.a[3]) and p.a[4] == q.a[4]]
        return each(rep, r, k, heads, q, chain, lambda y: True, lambda y: y, qs, 'query', (c,), w)
    if q.op in ('ext', 'rext') and q.a[0] is Q and q.a[1] is qs:
        return rep.good(k, 'all queries handed out are added', w)
    if q is Q:
        if F.cset(c, seqlen(qs)).single() == 0:
            return rep.good(k, 'no queries were handed out', w)
        return judge(rep, r, k, False, 'the queries handed out are dropped', w, q, *c.d)
    ch = chain(q)
    if len(ch) > 1 and ch[0] is Q and F.cset(c, seqlen(qs)).single() == len(ch) - 1 and all(x is mk('idx', qs, num(i)) for i, x in enumerate(ch[1:])):
        return rep.good(k, 'all queries handed out are added', w)
    if len(ch) > 1 and ch[0] is Q and all(x.op == 'idx' and x.a[0] is qs and is_num(x.a[1]) for x in ch[1:]):
        return judge(rep, r, k, False, 'only the queries %s of those handed out are added' % ', '.join(show(x.a[1]) for x in ch[1:]), w)
    if len(ch) == 2 and ch[0] is Q and ch[1].op == 'idx' and ch[1].a[0] is qs and fine(r, ch[1]) and (F.cset(c, seqlen(qs)).hi() is None or F.cset(c, seqlen(qs)).hi() > 1):
        return rep.bad(k, 'only one of the queries handed out is added', w)
    if q.op in ('rext', 'ext') and q.a[0] is qs:
        return judge(rep, r, k, False, 'the queries handed out go before those waiting', w)
    rep.unknown(k, show(q)[:150], w)


def query(rep, r, f, w):
    p = r.arg(0)
    B, Q = mk('fld', p, '0'), mk('fld', p, '1')
    n = seqlen(Q)
    for st, v in r.rets:
        b, q = state(r, st)
        for c in st.facts:
            k = F.cset(c, n)
            judge(rep, r, 'query:builder', b is B, 'the builder becomes %s' % show(b)[:100], w, b)
            if is_none(v):
                judge(rep, r, 'query:none', k.single() == 0, 'none is handed out with %s waiting' % k, w, *c.d)
                if k.single() == 0:
                    judge(rep, r, 'query:rest', q is Q or F.cset(c, seqlen(q)).single() == 0, 'the empty queue becomes %s' % show(q)[:100], w, q)
            elif is_some(v):
                judge(rep, r, 'query:first', pay(v) is mk('idx', Q, num(0)), 'the query handed out is %s' % show(pay(v))[:120], w, pay(v))
                judge(rep, r, 'query:rest', q is mk('slice', Q, num(1), n) or k.single() == 1 and F.cset(c, seqlen(q)).single() == 0, 'the queue becomes %s' % show(q)[:120], w, q)
            else:
                rep.unknown('query', show(v)[:100], w)


def proof(rep, r, f, w):
    B = mk('fld', r.arg(0), '0')
    done = mk('complete', B)
    for st, v in r.rets:
        for c in st.facts:
            s = F.cset(c, done).single()
            if is_none(v):
                judge(rep, r, 'proof:none', s == 0, 'no proof is handed out %s' % ('of a completed builder' if s == 1 else 'whatever the builder\'s state'), w, *c.d)
            elif is_some(v):
                judge(rep, r, 'proof:own', pay(v) is mk('proofof', B), 'the proof handed out is %s' % show(pay(v))[:120], w, pay(v))
            else:
                rep.unknown('proof', show(v)[:100], w)
