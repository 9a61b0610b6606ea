"""Alias resolution is correct, bounded and returns only verified records.

The name resolve_name works with is followed through its loop: it starts as the argument, and every other value it takes
is, by the facts on that path, the target of a CNAME owned by exactly the current name, or (with no CNAME there) the
result of replacing the owner of a DNAME strictly above the current name by its target, tabulated over concrete names.
A result is the full set of verified records owned by the current name, returned only where no CNAME at it and no DNAME
above it exists; an empty result only where the loop's bound is used up or the substituted name was refused.
"""
RULE = 'values of the current name and path facts at every return; tabulation of the DNAME substitution; loop ranking'
from vs import *
import names
import term
from names import nev, below, ZONES

CN, DN = 'CName.0', 'DName.0'
TARGETS = [b'.', b'org.', b'x.example.org.', b'example.com.']


def check(ctx, rep):
    names.all_helpers(ctx, rep, names.in_zone)
    fs = rep.need('VerifiedRRStream::resolve_name')
    for f in fs[:1]:
        resolve(ctx, rep, f)
    n = term.judge(ctx, rep, term.reach(ctx, fs), 'ends')


def resolve(ctx, rep, f):
    w = f['span']
    r = ctx.run(f)
    if not r.ok or r.unmod():
        return rep.unknown('resolve', r.why or 'unmodelled %s' % sorted(r.unmod())[:3], w)
    V = mk('fld', r.p(0), 'verified_rrs')
    cur = current(r)
    rets = 0
    for st, v in r.rets:
        rets += 1
        ret(rep, r, V, cur, st, v, w)
    n = 0
    for p in sorted(cur, key=lambda t: t.id):
        if p not in r.I.phis:
            continue
        for v, fs in r.I.phis[p]:
            if v in cur:
                continue
            for c in fs or ():
                n += 1
                step(rep, r, V, cur, p, v, c, w)
    rep.floor('alias steps', n, 1, hard=False)
    rep.floor('returns', rets, 1)


def current(r):
    """Terms that stand for the current name: the argument and the loop values that can hold it."""
    cur = {r.p(1)}
    grow = True
    while grow:
        grow = False
        for p, inc in r.I.phis.items():
            if p in cur or p.op != 'phi':
                continue
            if any(v in cur or v.op == 'fld' and v.a[1] == '0' and v.a[0] in cur for v, _ in inc) or any(isn(v, p, cur) for v, _ in inc):
                cur.add(p)
                grow = True
    return cur


def text(x, cur):
    return x in cur or x.op == 'fld' and x.a[1] == '0' and x.a[0] in cur


def isn(v, p, cur):
    return v.op == 'agg' and v.a[0].endswith('rr::Name') and any(x in cur for x in subterms(v))


def txt(t):
    return mk('fld', t, '0')


def rec_of(c, V):
    """Verified records the conjunction speaks about."""
    return {x for t in c.d if t.op not in ('exists', 'done') for x in subterms(t) if x.op == 'idx' and x.a[0] is V}


def held(r, p):
    """What a loop value can be, through other loop values."""
    out, todo, seen = set(), [p], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t in r.I.phis:
            todo += [v for v, _ in r.I.phis[t]]
        else:
            out.add(t)
    return out


def is_name_of(k, own, m):
    """own compared with the name made of the text m."""
    return k.op == 'eq' and own in k.a and any(y.op == 'agg' and y.a[2] and y.a[2][0] is m for y in k.a)


def vidx(r, name):
    return next((i for i, a in enumerate(r.P.adt[adt_path(r.P, 'rr::RR')]['v']) if a['n'] == name), None)


def env_for(ns, own, tgt):
    """Bind (terms, bytes) groups."""
    env = {}
    for ts, b in ((ns[0], ns[1]), (own[0], own[1]), (tgt[0], tgt[1])):
        for t in ts:
            env[t] = b
            env[seqlen(t)] = len(b)
    return env


def step(rep, r, V, cur, p, v, c, w):
    # the target of a CNAME owned by the current name
    if v.op == 'fld' and v.a[1] == '0':
        v = v.a[0]
    if v in cur:
        return None
    if v.op == 'fld' and v.a[1] == 'canonical_name':
        x = v.a[0].a[0] if v.a[0].op == 'fld' and v.a[0].a[1] == CN else None
        if x is None and v.a[0] in r.I.phis:   # picked by a loop of its own
            fine = all(y.op == 'fld' and y.a[1] == CN and y.a[0].op == 'idx' and y.a[0].a[0] is V for y in held(r, v.a[0]))
            return rep.judge('cname:verified', True if fine else None, 'CNAMEs followed are verified records', w)
        if x is None or not (x.op == 'idx' and x.a[0] is V):
            return rep.judge('cname:verified', None if r.imprecise(v) is not None else False, 'follows %s' % show(v)[:100], w)
        rep.good('cname:verified', 'CNAMEs followed are verified records', w)
        own = mk('rrname', x)
        hit = any(same(c, own, m) or same(c, txt(own), txt(m)) for m in cur)
        if hit:
            return rep.good('cname:owner', 'a CNAME is followed only from its own name', w)
        fs = [t for t in c.d if any(y is own for y in subterms(t))]
        odd = [t for t in fs if r.imprecise(t) is not None]
        return rep.judge('cname:owner', None if odd else False, 'a CNAME is followed from another name than its owner: %s' % ', '.join(show(t)[:80] for t in fs)[:200], w)
    xs = [x for x in rec_of(c, V) | {y for y in subterms(v) if y.op == 'idx' and y.a[0] is V} if any(y.op == 'fld' and y.a[1] == DN and y.a[0] is x for y in subterms(v))]
    if not xs:   # the target may only have been compared, with the root name
        xs = [x for x in rec_of(c, V) if any(y.op == 'fld' and y.a[1] == 'delegation_name' and any(z is x for z in subterms(y)) for t in c.d for y in subterms(t))]
    if not xs and r.imprecise(v) is None and not any(y.op == 'fld' and y.a[1] in ('delegation_name', 'canonical_name') for y in subterms(v)) \
            and any(y in cur for y in subterms(v)) and v not in cur:
        return rep.bad('dname:target', 'the name becomes %s, which no alias\'s target enters' % show(v)[:120], w)
    if len(xs) != 1:
        return rep.judge('step', None, 'the name becomes %s' % show(v)[:120], w)
    x = xs[0]
    own, tgt = mk('rrname', x), mk('fld', mk('fld', x, DN), 'delegation_name')
    own2 = mk('fld', mk('fld', x, DN), 'name')
    ms = [m for m in cur if any(y is m for y in subterms(v)) or any(y is m for t in c.d if t.op != 'exists' for y in subterms(t))]
    vm = [m for m in ms if any(y is m for y in subterms(v))] or ms
    if len(vm) != 1:
        return rep.unknown('dname', 'name %s' % show(v)[:120], w)
    m = vm[0]
    no_cname(rep, r, V, m, c, w, 'dname:after-cname')
    okv = next((t for t, q in c.d.items() if t.op == 'validname' and q.single() == 1), None)
    val = v.a[2][0] if v.op == 'agg' and v.a[2] else v
    n = 0
    for N in ZONES:
        for O in ZONES:
            for T in TARGETS:
                env = env_for(((m, txt(m)), N), ((own, txt(own), own2, txt(own2)), O), ((tgt, txt(tgt)), T))
                k = True
                for t, q in c.d.items():
                    if t.op in ('exists', 'done', 'validname') or r.imprecise(t) is not None:
                        continue
                    if not any(y in (m, own, tgt, own2) for y in subterms(t)):
                        continue
                    try:
                        if not q.has(nev(t, dict(env))):
                            k = False
                            break
                    except (NoVal, TypeError, IndexError):
                        return rep.unknown('dname', 'guard %s' % show(t)[:120], w)
                if not k:
                    continue
                n += 1
                if not (below(N, O) and N != O):
                    return rep.bad('dname:below', 'a DNAME at %s is applied to %s' % (O.decode(), N.decode()), w)
                try:
                    got = nev(val, dict(env))
                except (NoVal, TypeError, IndexError):
                    return rep.unknown('dname:target', show(val)[:160], w)
                pre = N if O == b'.' else N[:-len(O)]
                want = pre + (b'' if T == b'.' else T)
                if got != want:
                    return rep.bad('dname:target', 'a DNAME from %s to %s turns %s into %r' % (O.decode(), T.decode(), N.decode(), got), w)
    rep.judge('dname:below', bool(n) or None, 'a DNAME is applied only strictly below its owner', w)
    rep.judge('dname:target', bool(n) or None, 'the owner suffix is replaced by the target, %d substitutions' % n, w)
    rep.judge('dname:valid', True if okv is not None else None, 'the new name passed the name checks', w)


def covers(r, V, m, c, kind):
    """Whether facts c say no verified alias of the given kind applies to m: True, a missed case, or None."""
    cand = [t for t, q in c.d.items() if t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over' and t.a[0].a[0] is V]
    if not cand:
        return None if any(t.op == 'done' for t in c.d) else False
    pts = [(N, N) for N in ZONES] if kind == 'CName' else [(N, O) for N in ZONES for O in ZONES if below(N, O) and N != O]
    d = vidx(r, kind)
    missed = None
    for N, O in pts:
        hit, vague = False, False
        for t in cand:
            for alt in t.a[1]:
                ok_ = True
                for k, z in alt:
                    xs = {y for y in subterms(k) if y.op == 'idx' and y.a[0] is V}
                    if len(xs) != 1:
                        ok_ = None
                        break
                    x = xs.pop()
                    own = mk('rrname', x)
                    own2 = mk('fld', mk('fld', x, kind + '.0'), 'name')
                    env = env_for(((m, txt(m)), N), ((own, txt(own), own2, txt(own2)), O), ((), b''))
                    env[mk('discr', x)] = d
                    env[mk('rrty', x)] = RRTYPES[kind][0]
                    try:
                        if not z.has(nev(k, env)):
                            ok_ = False
                            break
                    except (NoVal, TypeError, IndexError):
                        ok_ = None
                        break
                if ok_:
                    hit = True
                elif ok_ is None:
                    vague = True
        if not hit:
            if vague:
                return None
            missed = missed or (N, O)
    return missed or True


def no_cname(rep, r, V, m, c, w, tag):
    k = covers(r, V, m, c, 'CName')
    rep.judge(tag, k if k in (True, None) else False, 'no CNAME exists at the name' if k is True else 'a CNAME at the current name is ignored', w)


def ret(rep, r, V, cur, st, v, w):
    if v is NIL or (v.op == 'arr' and not v.a[0]):
        for c in st.facts:
            used = any(t.op == 'done' and q.single() == 1 and t.a[0].op == 'range' for t, q in c.d.items())
            refused = any(t.op == 'validname' and q.single() == 0 for t, q in c.d.items())
            bound = any(t in r.I.phis or t.op in ('le0', 'eq0') and any(y in r.I.phis and y not in cur for y in subterms(t)) for t in c.d)
            nothing = any(t.op == 'exists' and q.single() == 0 and all(len(dict(a)) == 1 for a in t.a[1]) for t, q in c.d.items())
            # an alias to the very name it is at is a loop of one
            to = [t for t, q in c.d.items() if t.op == 'eq' and q.single() == 1 and any(y.op == 'fld' and y.a[1] in ('canonical_name', 'delegation_name') for x in t.a for y in subterms(x))]
            itself = [t for t in to if any(text(x, cur) for x in t.a) and any(x.op == 'fld' and x.a[1] == '0' and x.a[0].op == 'fld' and x.a[0].a[1] == 'canonical_name' for x in t.a)]
            if itself:
                rep.good('empty', 'an empty result as the alias leads back to its own name', w)
                continue
            if to:
                rep.unknown('empty', 'where the alias leads decides', w)
                continue
            if used or refused:
                rep.good('empty', 'an empty result only when the aliases loop or the new name is refused', w)
            else:
                vague = bound or nothing or any(r.imprecise(t) is not None for t in c.d)
                rep.judge('empty', None if vague else False, 'nothing is returned although no alias loop or invalid name was met: %s' % str(c)[:300], w)
        return
    m = as_comp(r, v)
    if m is None:
        return rep.unknown('result', show(v)[:160], w)
    s, alts, bv = m
    if s is not V:
        return rep.judge('result', None if r.imprecise(s) is not None else False, 'records are taken from %s' % show(s)[:100], w)
    if len(alts) != 1 or alts[0][1] is not idx(V, bv):
        return rep.unknown('result', show(v)[:200], w)
    x = idx(V, bv)
    own = mk('rrname', x)
    N, rest = None, []
    for k, z in alts[0][0].items():
        hit = [m_ for m_ in cur if k in (eq(own, m_), eq(txt(own), txt(m_)), eq(txt(own), m_)) or is_name_of(k, own, m_)]
        if hit and z.single() == 1:
            N = hit[0]
        else:
            rest.append((k, z))
    if N is None:
        vague = any(r.imprecise(k) is not None for k, _ in rest)
        return rep.judge('result:owner', None if vague else False, 'records of other owners are returned: %s' % show(v)[:200], w)
    rep.good('result:owner', 'only records owned by the current name are returned', w)
    if rest:
        lost = [k for k, z in rest if not all(z.has(i) for i in range(16)) or k.op != 'discr']
        vague = any(r.imprecise(k) is not None for k, _ in rest)
        rep.judge('result:all', None if vague else False if lost else True, 'some records of the final name are left out: %s' % ', '.join(show(k)[:80] + ' in %r' % z for k, z in rest), w)
    else:
        rep.good('result:all', 'all records owned by the current name are returned', w)
    for c in st.facts:
        other = {y for t, q in c.d.items() if t.op == 'exists' and q.single() == 0 for y in subterms(t) if y in cur and y is not N}
        if other and not any(y is N for t in c.d if t.op == 'exists' for y in subterms(t)) and all(any(v is not N for v, _ in r.I.phis.get(y, ())) for y in other):
            rep.bad('result:final', 'the records of another name than the one the aliases lead to are returned', w)
            continue
        no_cname(rep, r, V, N, c, w, 'result:no-cname')
        k = covers(r, V, N, c, 'DName')
        rep.judge('result:no-dname', k if k in (True, None) else False, 'no DNAME above the name exists' if k is True else 'a DNAME at %s is ignored for %s' % (k[1].decode(), k[0].decode()) if k else 'a DNAME above the name is ignored', w)
