"""The HTTP server survives every client and answers correctly framed.

The server loop and the connection handler it spawns are analysed separately (proof builders abstracted, C29).  The loop
must have no way out: no return, no reachable panic, nothing that waits for what a client sends.  Every way through the
handler is read off its effect log: the bytes written along it have to parse as one HTTP response whose Content-Length is
the length of its body as a term; a 200 needs a proof built on that path, the proof as its body and the builder's TTL as
its lifetime; nothing is written only after the client's end or a failed read; the builder is called only under conditions
that make the request a GET of the proof path under HTTP/1.0 or 1.1.
"""
RULE = 'ways out of the server loop; effect log of the handler against the response grammar; conditions of the proof builder calls'
from trace import *
from panics import *
from points import Points
import jsonfa, re as _re

PATHPFX = b'/dnssecproof?'
LIMIT = 400


class Open(Exception):
    pass


def server(rep, r, f):
    w = f['span']
    if r.rets:
        rep.bad('loop:return', 'the accept loop can end: %s' % '; '.join(str(c)[-200:] for c in r.rets[0][0].facts[:1]), w)
    else:
        rep.good('loop:return', 'the accept loop has no way out', w)
    acc = [e for e in r.evs if e.kind == 'io' and e.name.endswith('accept')]
    rep.judge('loop:accept', True if acc else None, '%d accepting calls' % len(acc), w)
    for e in r.evs:
        if e.kind == 'io' and e.name in ('read', 'read_some', 'read_exact'):
            rep.bad('loop:waits', 'the accept loop itself waits for what a client sends', e.span)
        if e.kind == 'unmodelled' and e.name.split('::')[-1] in ('exit', 'abort', 'process_exit'):
            rep.bad('loop:exit', 'the accept loop can end the process', e.span)


def panics(ctx, rep, r, f, tag):
    T = Types(r.P)
    pr = Prover(r, T, jsonfa.Text(r))
    for e in r.evs:
        if e.kind not in ('assert', 'panic'):
            continue
        good = e.args[0] if e.kind == 'assert' else num(0)
        if is_num(good) and good.a[0]:
            continue
        key = '%s:panic:%s:%s' % (tag, e.fn.split('::')[-1], e.name)
        if all(pr.refuted(c, [(good, 0)]) for c in e.facts):
            rep.good(key, 'cannot fail', e.span)
        elif tag == 'loop' and e.kind == 'panic' and all(r.imprecise(t) is None for c in e.facts for t in c.d):
            rep.bad(key, 'the accept loop panics when %s' % '; '.join(str(c)[:200] for c in e.facts[:1]), e.span)
        elif tag == 'handler' and (x := sent(r, e, good)) is not None:
            rep.bad(key, 'panics instead of answering when the client sends %r' % x, e.span)
        elif tag == 'handler' and e.kind == 'panic' and any(refusal(t, s) for c in e.facts for t, s in c.d.items()):
            rep.bad(key, 'panics instead of answering when %s' % '; '.join('%s is not so' % show(t)[:60] for c in e.facts for t, s in c.d.items() if refusal(t, s))[:300], e.span)
        elif tag == 'handler' and e.kind == 'panic' and any(plainly(r, c) for c in e.facts):
            rep.bad(key, 'panics instead of answering when the bytes received so far do not contain %s' % [show(t.a[2]) for c in e.facts for t in c.d if t.op == 'strp' and t.a[0] == 'contains'][:1], e.span)
        else:
            rep.unknown(key, 'not decided', e.span)


G = b'GET /dnssecproof?d=a.com.&t=txt HTTP/1.1'
LINES = [b'', b' ', b'GET', b'GET ', b'GET /', b'GET / HTTP/1.1', b'G', b'GET /dnssecproof HTTP/1.1', b'GET /dnssecproof? HTTP/1.1', b'GET /dnssecproof?d HTTP/1.1', b'GET /dnssecproof?d=a.com. HTTP/1.0', b'GET /dnssecproof?d=&t= HTTP/1.1',
         G, G + b' x', G.replace(b'GET', b'POST'), G.replace(b'1.1', b'2'), b'GET  /dnssecproof?d=a.com.&t=txt HTTP/1.1', 'GET /dnssecproof\u00e9d=a.com.&t=txt HTTP/1.1'.encode(), 'GET /dnssecproo\u00e9d=a.com.&t=txt HTTP/1.1'.encode(),
         'GET /\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9 HTTP/1.1'.encode(), 'GET \u00e9/\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9 HTTP/1.1'.encode(), '\u00e9'.encode(), 'GET /dnssecproof?\u00e9=\u00e9&t=\u00e9 HTTP/1.1'.encode(), b'/ HTTP/1.1', b'GET HTTP/1.1',
         b'GET / HTTP/1.10', b'GET / HTTP/', b'GET / ', b'GET / H', b'GET /dnssecproof?= HTTP/1.1', b'GET /dnssecproof?& HTTP/1.1', b'GET /dnssecproof?d=a.com.&t=txt&x HTTP/1.1', b'GET /dnssecproof?d=a&t=txt HTTP/1.1']
SENT = [l + b'\r\n' for l in LINES] + [b'\xff\r\n', b'\r\n\r\n', b'GET / HTTP/1.1\r\nHost: x\r\n\r\n']


def sent(r, e, good):
    """What a client can send, in one piece, to make the check of e fail; None if none of the samples does."""
    P = Points(r)
    for c in e.facts:
        xs = {y for t in list(c.d) + [good] for y in subterms(t) if y.op == 'slice' and y.a[1] is num(0) and y.a[0].op == 'splice' and y.a[2].op != 'posof'}
        if len(xs) != 1:
            continue
        X = xs.pop()
        ps = {y for y in subterms(X) if y in r.I.phis}
        about, must, plain = {}, [], True
        for t, s in c.d.items():
            if any(y is X for y in subterms(t)):
                about[t] = s
            elif {y for y in subterms(t) if y in r.I.phis} - ps or r.imprecise(t) is not None:
                plain = False
            elif t.op == 'eq':
                ks = [y.a[0] for y in t.a if isinstance(y, T) and y.op == 'bytes']
                if ks and s.single() == 1:
                    must += ks
                elif s.single() != 0:
                    plain = False
        if not plain:
            continue
        for v in SENT:
            if all(k in v for k in must):
                env = {X: v, seqlen(X): len(v), X.a[0]: v.ljust(4096, b'\0')}
                env.update({y: 0 for y in ps if y in subterms(X.a[2])})
                env.update({y: len(v) for y in subterms(X.a[2]) if y.op == 'ion'})
                env.update({y: 0 for t in list(about) + [good] for y in subterms(t) if y.op == 'elem' and y.a[0].op == 'split' and any(z is X.a[0] for z in subterms(y))})
                try:
                    if (not about or P.at([F.Conj(about)], env)) and not P.value(good, env):
                        return v
                except (NoVal, IndexError):
                    pass
    return None


def plainly(r, c):
    """Nothing but letters sent by the client meets the conditions, and they depend on the bytes sent."""
    hit = False
    for t, s in c.d.items():
        if not any(y.op == 'input' for y in subterms(t)) or t.op in ('le0', 'eq0', 'ion', 'len'):
            continue
        if t.op == 'strp' and t.a[0] == 'utf8' and s.single() == 1:
            continue
        if t.op == 'strp' and t.a[0] == 'contains' and s.single() == 0 and t.a[2].op == 'bytes' and any(not chr(b).isalpha() for b in t.a[2].a[0]):
            hit = True
            continue
        if t.op == 'eq' and s.single() == 0 and any(y.op == 'bytes' and any(not chr(b).isalpha() for b in y.a[0]) for y in t.a):
            continue
        return False
    return hit and not any(r.imprecise(t) is not None for t in c.d)


def refusal(t, s):
    """The client's text, or the name in it, was found to be none, or the proof could not be built."""
    return s.single() == 0 and (t.op == 'validname' or t.op == 'isbuilt' or t.op == 'strp' and t.a[0] in ('utf8', 'parses'))


# ------------------------------------------------------------------ the handler's log
def ways(r, v, seen=()):
    """The effect sequences a log value stands for (passes of reading loops shortened away)."""
    b, ts = toks(v)
    if b is None:
        raise Open('the log is not known')
    if b is NIL:
        return [ts]
    if b not in r.I.phis:
        raise Open('the log starts with %s' % show(b)[:60])
    if b in seen:
        return []
    out = []
    for x, fs in r.I.phis[b]:
        if x is b:
            continue
        b2, t2 = toks(x)
        if b2 is b:
            if any(t.a[0] not in ('read', 'failed', 'await') for t in t2):
                raise Open('effects repeated by a loop: %s' % show(x)[-100:])
            # after a failed or empty read the loop goes on or the handler ends
            continue
        for w in ways(r, x, seen + (b,)):
            if w + ts not in out:
                out.append(w + ts)
        if len(out) > LIMIT:
            raise Open('too many ways')
    return out


def alternatives(r, t, depth=0):
    """[(term, conditions)] a written value stands for; values merged at the same meeting point are told apart together."""
    ps = [y for y in subterms(t) if y.op == 'phi' and y in r.I.phis and any(v.op in ('bytes', 'ext', 'phi', 'built') for v, _ in r.I.phis[y])]
    ps = [y for y in ps if free(t, y)]
    if not ps or depth > 4:
        return [(t, None)]
    p = ps[0]
    g = [y for y in ps if y.a[:3] == p.a[:3]]
    ls = [r.I.phis[y] for y in g]
    if len({len(l) for l in ls}) != 1 or any(v is y for y, l in zip(g, ls) for v, _ in l):
        if t is p:
            ls = [[(v, fs) for v, fs in ls[0] if v is not p]]
        else:
            raise Open('merged values that do not go together')
    out = []
    for alt in zip(*ls):
        x = subst(t, {y: v for y, (v, _) in zip(g, alt)})
        for z, h in alternatives(r, x, depth + 1):
            if (z, h if h is not None else alt[0][1]) not in out:
                out.append((z, h if h is not None else alt[0][1]))
        if len(out) > LIMIT:
            raise Open('too many alternatives')
    return out


def free(t, y):
    """y is a piece of the text t, or its length is written there."""
    for p in pieces(t):
        if p is y or p.op == 'dec' and (p.a[0] is y or p.a[0] is mk('len', y)):
            return True
    return False


def pieces(t):
    out = []
    while t.op == 'ext':
        out.append(t.a[1])
        t = t.a[0]
    if t is not NIL:
        out.append(t)
    return out[::-1]


def parse(t):
    """(status, {header: [pieces]}, body term) of a response, or a reason."""
    ps = pieces(t)
    head, body = [], []
    inbody = False
    for p in ps:
        if inbody:
            body.append(p)
        elif p.op == 'bytes':
            i = p.a[0].find(b'\r\n\r\n')
            if i < 0:
                head.append(p.a[0])
            else:
                head.append(p.a[0][:i])
                inbody = True
                if p.a[0][i + 4:]:
                    body.append(byts(p.a[0][i + 4:]))
        else:
            head.append(p)
    if not inbody:
        return 'the header does not end'
    txt = b''
    holes = []
    for p in head:
        if isinstance(p, bytes):
            txt += p
        else:
            txt += b'\0%d\0' % len(holes)
            holes.append(p)
    lines = txt.split(b'\r\n')
    m = _re.match(rb'HTTP/1\.[01] (\d\d\d) [^\0\r\n]+$', lines[0])
    if not m:
        if lines[0].startswith(b'\0') and holes[0].op == 'built':
            return 'the proof comes before the header'
        if b'\0' in lines[0]:
            raise Open('the status line is not constant')
        return 'the status line is %r' % lines[0][:60]
    hs = {}
    for l in lines[1:]:
        if b':' not in l or b'\n' in l or b'\r' in l:
            return 'the header line %r' % l[:60]
        k, v = l.split(b':', 1)
        if not _re.match(rb'^[A-Za-z0-9-]+$', k):
            return 'the header name %r' % k[:60]
        k = k.lower().decode()
        if k in hs:
            return 'the header %s twice' % k
        hs[k] = (v.strip(), holes)
    return int(m.group(1)), hs, cat(body)


def value(h):
    """The number a header value is, as a term."""
    v, holes = h
    if v.isdigit():
        return num(int(v))
    m = _re.match(rb'^\0(\d+)\0$', v)
    if m:
        x = holes[int(m.group(1))]
        if x.op == 'dec':
            return x.a[0]
        raise Open(show(x)[:60])
    return None


def response(rep, r, t, fs, built, w):
    key = 'response'
    x = parse(t)
    if isinstance(x, str):
        return rep.bad(key + ':form', '%s in %s' % (x, show(t)[:150]), w)
    st, hs, body = x
    rep.good(key + ':form:%d' % st, 'a response with status %d' % st, w)
    if 'content-length' not in hs:
        rep.bad(key + ':length', 'no Content-Length with status %d' % st, w)
    else:
        v = value(hs['content-length'])
        n = seqlen(body)
        if v is n:
            rep.good(key + ':length', 'Content-Length is the length of the body', w)
        elif v is None:
            rep.bad(key + ':length', 'Content-Length is %r' % hs['content-length'][0][:60], w)
        elif r.imprecise(v) is not None or r.imprecise(n) is not None:
            rep.unknown(key + ':length', show(v)[:100], w)
        else:
            rep.bad(key + ':length', 'Content-Length is %s, the body has %s bytes' % (show(v)[:80], show(n)[:80]), w)
    if st != 200:
        if st < 400:
            rep.bad(key + ':status', 'status %d is no error' % st, w)
        if built and not fails(fs):
            rep.unknown(key + ':withheld', 'status %d after a proof was built' % st, w)
        return
    if not built:
        return rep.bad(key + ':status', 'status 200 on a path that built no proof', w)
    p = built[-1]
    want = mk('built', p.a[1], p.a[2])
    if body is want:
        rep.good(key + ':body', 'the body is the proof', w)
    elif r.imprecise(body) is not None:
        rep.unknown(key + ':body', show(body)[:100], w)
    else:
        rep.bad(key + ':body', 'the body of a 200 is %s' % show(body)[:120], w)
    ttl = mk('builtttl', p.a[1], p.a[2])
    cc, holes = hs.get('cache-control', (b'', []))
    ages = dict(_re.findall(rb'(s-maxage|max-age)=([^, ]+)', cc.replace(b's-maxage', b's-maxage')))
    if b'max-age' not in ages:
        rep.bad(key + ':ttl', 'a proof is served without its lifetime (Cache-Control %r)' % cc[:60], w)
    for k, v in ages.items():
        x = value((v, holes))
        if x is ttl:
            rep.good(key + ':ttl:' + k.decode(), 'the builder\'s TTL', w)
        elif x is not None and r.imprecise(x) is not None:
            rep.unknown(key + ':ttl:' + k.decode(), show(x)[:100], w)
        else:
            rep.bad(key + ':ttl:' + k.decode(), '%s is %s, the builder said %s' % (k.decode(), show(x)[:80] if x is not None else v, show(ttl)[:80]), w)


def fails(fs):
    return any(t.op == 'isbuilt' and s.single() == 0 for c in fs or () for t, s in c.d.items())


def handled(rep, r, g):
    w = g['span']
    n = 0
    for st, v in r.rets:
        try:
            ws = ways(r, st.store.get(LOG, NIL))
        except Open as x:
            rep.unknown('responses', str(x)[:150], w)
            continue
        for ts in ws:
            ts = [t for t in ts if t.a[0] != 'await']
            wr = [i for i, t in enumerate(ts) if t.a[0] == 'write']
            fw = any(t.a[0] == 'failed' and t.a[1].a[0] in ('write', 'flush', 'shutdown') for t in ts)
            built = [t for t in ts if t.a[0] == 'built']
            if not wr:
                if fw or any(t.a[0] == 'failed' for t in ts) or ended(r, st):
                    rep.good('silent', 'no response only when the client is gone', w)
                elif any(r.imprecise(t) is not None for c in st.facts for t in c.d):
                    rep.unknown('silent', 'a path without a response', w)
                else:
                    rep.bad('silent', 'a request is left without a response under %s' % '; '.join(str(c)[-200:] for c in st.facts[:1]), w)
                continue
            if any(t.a[0] in ('read', 'built') for t in ts[wr[0]:]):
                rep.unknown('responses', 'reads on after answering', w)
                continue
            n += 1
            try:
                # a value written that is one of several: each alternative is a response of its own, or they are joined
                whole = NIL
                for i in wr:
                    whole = ext(whole, ts[i].a[1])
                alts = alternatives(r, whole)
                for a, fs in alts:
                    if fw:
                        continue
                    bt = built
                    if fs is not None and any(t.op == 'isbuilt' and s.single() == 1 for c in fs for t, s in c.d.items()) and not bt:
                        continue            # the other alternatives of the log go with this one
                    if fs is not None and bt and not all(any(t.op == 'isbuilt' and s.single() == 1 for t, s in c.d.items()) for c in fs):
                        continue
                    response(rep, r, a, fs, bt, w)
            except Open as x:
                rep.unknown('responses', str(x)[:150], w)
    rep.floor('answered paths', n, 2, hard=False)


def reading(rep, r, g):
    """Every pass of a reading loop either read something or failed for now."""
    w = g['span']
    n = 0
    for p in logs(r):
        for v, fs in r.I.phis[p]:
            for b, ts, f2 in splits(v, fs):
                if b is not p or not ts or ts[-1].a[0] not in ('read', 'failed'):
                    continue
                n += 1
                last = ts[-1]
                at = p
                for t in ts[:-1]:
                    at = ext(at, t)
                if last.a[0] == 'read':
                    k = last.a[1]
                    if k.op == 'ion' and any(F.cset(c, k).has(0) for c in f2):
                        rep.bad('read:end', 'after the end of what the client sends the handler reads on, for ever', w)
                    else:
                        rep.good('read:end', 'reads on only after bytes came', w)
                elif all(any(t.op == 'eq' and s.single() == 1 and any(y.op == 'ioerr' for y in subterms(t)) for t, s in c.d.items()) for c in f2):
                    rep.good('read:failed', 'reads on only after failures of a named kind', w)
                elif any(any(y.op == 'ioerr' for y in subterms(t)) for c in f2 for t in c.d):
                    rep.unknown('read:failed', 'after which failures it reads on is not known', w)
                else:
                    rep.bad('read:failed', 'after any failure to read the handler tries again, for ever', w)


def received(rep, r, es, w):
    """What is parsed as the request is what the client sent, from its first byte on."""
    at = {}
    for B, inc in r.I.phis.items():
        for v, fs in inc:
            for y in subterms(v):
                if y.op == 'splice' and y.a[0] is B and any(z.op == 'input' for z in subterms(y.a[2])):
                    at.setdefault((B, y.a[1]), set()).update(z for z in subterms(y.a[2]) if z.op == 'input')
    for (B, P), ins in at.items():
        ns = [z.a[1] for z in ins]
        if is_num(P):
            rep.judge('request:stored', None, 'bytes always stored at %s' % show(P), w)
            continue
        if P not in r.I.phis:
            rep.unknown('request:stored', 'bytes stored at %s' % show(P)[:100], w)
            continue
        for v, fs in r.I.phis[P]:
            if is_num(v):
                rep.judge('request:stored', v.a[0] == 0, 'the first bytes received are stored at %d' % v.a[0], w)
            elif v is P:
                continue
            else:
                d = sub(v, P)
                rep.judge('request:stored', True if d in ns else (False if is_num(d) or r.imprecise(d) is None and d.op in ('ion', 'lin', 'int') else None),
                          'the next bytes are stored behind those received' if d in ns else 'after each read the place to store moves by %s' % show(d)[:80], w)
        for e in es:
            srcs = {z.a[1] for t, q in all_facts(r, e) for y in subterms(t) if y.op == 'part' for z in subterms(y) if z.op == 'split'}
            for x in {z for t in srcs for z in subterms(t) if z.op == 'slice' and z.a[0].op == 'splice' and z.a[0].a[0] is B}:
                n = [z.a[1] for z in subterms(x.a[0]) if z.op == 'input']
                if not is_num(x.a[1]):
                    continue
                full = any(x.a[2] is add(P, k) for k in n) or x.a[2].op == 'posof'
                rep.judge('request:text', True if x.a[1].a[0] == 0 and full else (False if x.a[1].a[0] != 0 or is_num(x.a[2]) else None), 'the request is taken from bytes %s to %s of what was received' % (show(x.a[1]), show(x.a[2])[:80]), w)


def ended(r, st):
    """The client sent its end: a read gave no bytes."""
    return bool(st.facts) and all(any(t.op == 'ion' and t.a[0].a[0] == 'read' and s.single() == 0 for t, s in c.d.items()) for c in st.facts)


def request(rep, r, e):
    w = e.span
    need(rep, r, e, 'verb', 0, lambda k: k == b'GET', b'GET', w)
    need(rep, r, e, 'version', 2, lambda k: k in (b'HTTP/1.0', b'HTTP/1.1'), b'HTTP/', w)
    # the path
    key = 'request:path'

    def good(c):
        for t, s in c.d.items():
            if s.single() != 1:
                continue
            for y in ([t] if t.op == 'eq' else [t.a[0], t.a[1]] if t.op == 'band' else [t] if t.op == 'startsw' else []):
                if y.op in ('eq', 'startsw') and any(z.op == 'bytes' and z.a[0].startswith(PATHPFX[:-1]) for z in y.a if isinstance(z, T)) \
                        and all(z.op != 'slice' or z.a[1] is num(0) for z in y.a if isinstance(z, T)):
                    return True
        return False
    if holds_at(r, e, good):
        rep.good(key, 'under %s' % PATHPFX.decode(), w)
    elif (ops := elsewhere(r, e)) is not None:
        rep.bad(key, 'a proof is built for a path that only %s %s' % (' or '.join(sorted(ops)), PATHPFX.decode()), w)
    elif any(y.op == 'bytes' and y.a[0].startswith(b'/dns') for t, s in all_facts(r, e) for y in subterms(t)):
        rep.unknown(key, 'how the path is compared is not known', w)
    elif any(r.imprecise(t) is not None for t, s in all_facts(r, e)):
        rep.unknown(key, 'conditions not known', w)
    else:
        rep.bad(key, 'a proof is built whatever the path', w)


def elsewhere(r, e):
    """How the path is compared, if it is only looked at whether it ends with or contains the prefix."""
    ops = set()
    for t, s in all_facts(r, e):
        for y in subterms(t):
            if any(isinstance(z, T) and z.op == 'bytes' and z.a[0].startswith(PATHPFX[:-1]) for z in y.a):
                if y.op == 'endsw' or y.op == 'eq' and any(z.op == 'slice' and not is_num(z.a[1]) and z.a[2] is seqlen(z.a[0]) for z in y.a):
                    ops.add('ends with')
                elif y.op == 'strp' and y.a[0] in ('contains', 'ends_with'):
                    ops.add(y.a[0].replace('_', ' '))
                else:
                    return None
    return ops or None


WRONG = {'verb': [b'GETX', b'XGET', b'POST', b'HEAD', b'get', b'Get', b'GE', b'', b'PUT', b'DELETE', b'GET/', b'BUDGET'],
         'version': [b'HTTP/2', b'HTTP/1.2', b'HTTP/1.10', b'HTTP/1.', b'HTTP/0.9', b'HTTP/', b'http/1.1', b'', b'XHTTP/1.1', b'HTTP/1.0x', b'HTTP/11']}


def tried(r, e, i, samples):
    """One of the samples with which, as part i of the request line, every condition on that part is met on the way."""
    pt = Points(r)
    levels = [list(e.facts)] + [[c for _, st in r.I.entries[h] for c in st.facts] for h in dominated(r, e)]

    def about(c):
        return [(t, q) for t, q in c.d.items() if any(y.op == 'part' and y.a[-1] is num(i) for y in subterms(t))]
    if not any(l and all(about(c) for c in l) for l in levels):
        return None
    ps = {y for l in levels for c in l for t, q in about(c) for y in subterms(t) if y.op == 'part' and y.a[-1] is num(i)}
    if len(ps) != 1:
        return None
    p = ps.pop()
    for s in samples:
        if all(any(pt.at([F.Conj(dict(about(c)))], {p: s}) is True for c in l) for l in levels if l):
            return s
    return None


def need(rep, r, e, what, i, okc, mention, w):
    key = 'request:' + what

    def consts(c):
        """Constants the part is known to be equal to, and whether it is compared otherwise."""
        pos, neg = set(), set()
        for t, s in c.d.items():
            if t.op == 'eq':
                ks = [y.a[0] for y in t.a if isinstance(y, T) and y.op == 'bytes']
                ps = [y for y in t.a if isinstance(y, T) and y.op == 'part']
                if ks and ps and ps[0].a[-1] is num(i):
                    (pos if s.single() == 1 else neg).add(ks[0])
        return pos, neg

    def good(c):
        pos, neg = consts(c)
        return len(pos) == 1 and all(okc(k) for k in pos)
    if holds_at(r, e, good):
        return rep.good(key, 'as required', w)
    cs = list(e.facts) + [c for h in dominated(r, e) for k, st in r.I.entries[h] for c in st.facts]
    for c in cs:
        pos, neg = consts(c)
        if pos and not any(okc(k) for k in pos):
            return rep.bad(key, 'a proof is built for %s' % sorted(pos), w)
    if any(y.op == 'bytes' and mention in y.a[0] for t, s in all_facts(r, e) for y in subterms(t)):
        negs = [c for c in cs if any(okc(k) for k in consts(c)[1]) and not consts(c)[0]]
        if negs and all(len(consts(c)[1]) == len([t for t in c.d if any(y.op == 'bytes' and mention in y.a[0] for y in subterms(t))]) for c in negs):
            return rep.bad(key, 'a proof is built though the %s is none of %s' % (what, sorted(consts(negs[0])[1])), w)
        v = tried(r, e, i, WRONG[what])
        if v is not None:
            return rep.bad(key, 'a proof is built though the %s is %r' % (what, v), w)
        return rep.unknown(key, 'how the %s is compared is not known' % what, w)
    if any(r.imprecise(t) is not None for t, s in all_facts(r, e)):
        return rep.unknown(key, 'conditions not known', w)
    rep.bad(key, 'a proof is built whatever the %s' % what, w)


def check(ctx, rep):
    r, f = handler(ctx, rep)
    if r is None:
        for f in ctx.fns('run_server', 'bin'):
            s = ctx.run(f, 'bin', extra=CUTS.SERVE)
            if s.ok:
                server(rep, s, f)
        return
    server(rep, r.server, f)
    panics(ctx, rep, r.server, f, 'loop')
    panics(ctx, rep, r, f, 'handler')
    handled(rep, r, f)
    reading(rep, r, f)
    bs = [e for e in r.evs if e.kind == 'build']
    for e in bs:
        request(rep, r, e)
    received(rep, r, bs, f['span'])
    rep.floor('proof builder calls', len(bs), 1)
    for e in r.evs:
        if e.kind == 'io' and e.name == 'read_some':
            pr = Prover(r, Types(r.P), jsonfa.Text(r))
            rep.judge('read:room', True if all(pr.refuted(c, [(le0(e.args[0]), 1)]) for c in e.facts) else None, 'reads into %s bytes' % show(e.args[0])[:60], e.span)
