"""Termination of the loops of a function.

A loop ends if, in its control-flow graph, every way round passes the Some edge of a `next` on a finite iterator that is
made outside the loop; or if on every way round a list it carries gets shorter, or a counter it carries moves towards a
bound; or if it works off a list that grows only by entries whose name is new to a list of names seen.  It does not end
if some way round leaves everything its conditions read as it was.
"""
from vs import *

INFINITE = ('iter::Repeat<', 'iter::Cycle<', 'iter::RepeatWith<', 'ops::RangeFrom<', 'iter::FromFn<', 'iter::Successors<', 'iter::RepeatN<')


def callee(P, t):
    return P.fns[t[1]['i']] if t[0] == 'call' and 'i' in t[1] else None


def is_next(f):
    return f is not None and (f.get('trait') or '') in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')


def reach(ctx, roots, cfg='lib'):
    """Functions of the crate that the roots can call (closures of a reached function included)."""
    P = ctx.prog(cfg)
    todo, seen = list(roots), {}
    while todo:
        f = todo.pop()
        if f['id'] in seen or 'body' not in f:
            continue
        seen[f['id']] = f
        pre = f['path'] + '::{closure'
        for g in P.fns:
            if 'body' in g and g['path'].startswith(pre):
                todo.append(g)
        for b in P.body(f).bbs:
            for i in fn_ids(b, P.types):
                todo.append(P.fns[i])
    return list(seen.values())


def fn_ids(x, types=()):
    """Functions called or named (function items, closures) in a piece of MIR."""
    if isinstance(x, dict):
        if isinstance(x.get('i'), int) and 'd' in x:
            yield x['i']
        if 'fnty' in x and types:
            i = types[x['fnty']].get('i', types[x['fnty']].get('f'))
            if isinstance(i, int):
                yield i
        for v in x.values():
            yield from fn_ids(v, types)
    elif isinstance(x, list):
        if len(x) == 3 and x[0] == 'closure' and isinstance(x[2], int):
            yield x[2]
        for v in x:
            yield from fn_ids(v, types)


def cyclic(body, blocks, head, cut):
    """Whether head can be reached again inside blocks without the edges in cut."""
    seen, todo = set(), [head]
    while todo:
        u = todo.pop()
        for v in body.succ[u]:
            if (u, v) in cut or v not in blocks:
                continue
            if v == head:
                return True
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return False


def iter_edges(P, body, blocks):
    """Some edges of `next` on a finite iterator made outside the blocks: ([(edge, type)], other uses of iterators)."""
    refs, tup, assigned = {}, {}, set()
    for b in blocks:
        for s in body.bbs[b]['s']:
            if s[0] != '=':
                continue
            d, rv = s[1], s[2]
            if not d[1]:
                assigned.add(d[0])
            if rv[0] == 'ref' and not d[1]:
                refs.setdefault(d[0], []).append(rv[2])
            elif rv[0] == 'use' and not d[1] and rv[1][0] in ('c', 'm'):
                refs.setdefault(d[0], []).append(rv[1][1])
            elif rv[0] == 'agg' and not d[1]:
                for k, o in enumerate(rv[-1]):
                    if isinstance(o, list) and o and o[0] in ('c', 'm') and not o[1][1]:
                        tup.setdefault((d[0], k), set()).add(o[1][0])
        t = body.bbs[b]['t']
        if t[0] == 'call' and not t[4][1]:
            assigned.add(t[4][0])
    out, odd = [], []
    for b in blocks:
        t = body.bbs[b]['t']
        f = callee(P, t)
        if not is_next(f):
            if f is not None and (f.get('trait') or '').startswith('std::iter::Iterator::') and t[3] and P.types[t[3][0]]['k'] == 'ref' and base_local(t[2][0], refs) not in assigned:
                odd.append(f['full'])
            continue
        it = base_local(t[2][0], refs)
        if it is not None and it in assigned:
            continue
        if it is None:
            odd.append(f['full'])
            continue
        T_ = P.types[body.locals[it]]
        n = T_.get('n', '') or str(T_)
        if any(x in n for x in INFINITE) or 'dnssec_prover' in n.split('closure')[0][:40]:
            odd.append(n)
            continue
        d = t[4][0] if not t[4][1] else None
        hit = [(sb, tgt) for sb, tgt in some_edges(body, blocks, d, tup)]
        out.extend(((e, n) for e in hit))
        if not hit:
            odd.append(f['full'])
    return out, odd


def base_local(o, refs):
    if o[0] not in ('c', 'm') or o[1][1]:
        return None
    x = o[1][0]
    for _ in range(6):
        ps = refs.get(x)
        if not ps:
            return x
        if len(ps) != 1:
            return None
        p = ps[0]
        if any(e != '*' for e in p[1]):
            return None
        x = p[0]
    return x


def some_edges(body, blocks, d, tup):
    if d is None:
        return
    places = {(d, ())} | {(t, (k,)) for (t, k), ds in tup.items() if d in ds}
    for b in blocks:
        t = body.bbs[b]['t']
        if t[0] != 'switch' or t[1][0] not in ('c', 'm') or t[1][1][1]:
            continue
        for s in body.bbs[b]['s']:
            if s[0] == '=' and s[1] == [t[1][1][0], []] and s[2][0] == 'discr':
                p = s[2][1]
                key = (p[0], tuple(fieldno(e) for e in p[1]))
                if key in places:
                    for v, bb in t[3]:
                        if v == 1:
                            yield b, bb
                    if t[4] is not None and not any(v == 1 for v, _ in t[3]):
                        yield b, t[4]


def fieldno(e):
    if isinstance(e, list) and e and e[0] == 'f':
        return e[1]
    return e if not isinstance(e, list) else str(e)


# ------------------------------------------------------------------ loop-carried values
def head_phis(r, cx, h):
    return [p for p in r.I.phis if p.op == 'phi' and p.a[0] is cx and p.a[1] == h]


def at_path(v, path):
    for i in path:
        if v.op == 'agg' and isinstance(i, int) and i < len(v.a[2]):
            v = v.a[2][i]
        else:
            return None
    return v


def at_least(c, t, n):
    """Whether facts c force t >= n."""
    k, ps = lin_parts(t)
    low = k
    for x, co in ps.items():
        if co > 0 and x.op == 'min':
            if not all(at_least(c, y, 1) for y in x.a if hasattr(y, 'op')):
                return False
            low += co
            continue
        q = F.cset(c, x)
        b = q.lo() if co > 0 else q.hi()
        if b is None:
            return False
        low += co * b
    return low >= n


def strict(r, v, p, s=None):
    """How the list v relates to p: 'less' (provably shorter), 'same' (not longer), or None."""
    if v is p:
        return 'same'
    if v.op == 'slice' and v.a[0] is p:
        k, ps = lin_parts(sub(seqlen(v), seqlen(p)))
        if k < 0 and not ps:
            return 'less'
        if s is not None and s.facts and all(at_least(c, sub(seqlen(p), seqlen(v)), 1) for c in s.facts):
            return 'less'
        return None
    if v.op in ('comp', 'sorted', 'dedup', 'rev'):
        b = v.a[0]
        if v.op == 'comp':
            if b.op != 'over':
                return None
            b = b.a[0]
        return strict(r, b, p, s)
    return None


def inner(r, x, cx, blocks, h):
    return x.op == 'phi' and x in r.I.phis and not (x.a[0] is cx and (x.a[1] == h or x.a[1] not in blocks))


def roots(r, v, cx, blocks, h, seen=None):
    """Values of head h (or others) that list v starts from, through inner loops: [(value, grown?)]."""
    seen = set() if seen is None else seen
    if v.op == 'push':
        return [(x, True) for x, _ in roots(r, v.a[0], cx, blocks, h, seen)]
    if inner(r, v, cx, blocks, h):
        if v in seen:
            return []
        seen.add(v)
        out = []
        for x, _ in r.I.phis[v]:
            out += roots(r, x, cx, blocks, h, seen)
        if any(g for _, g in out) or any(x.op == 'push' for x, _ in r.I.phis[v]):
            out = [(x, True) for x, _ in out]
        return out
    return [(v, False)]


def loop(rep, r, tag, cx, h, w):
    """Judge the loop with head h of the analysed function r: True, False or None; with a reason."""
    blocks, states = r.I.loops.get((cx, h), ((), ()))
    if not states:
        return True, 'is never repeated'
    keys = {}
    for p in head_phis(r, cx, h):
        keys.setdefault((p.a[3], p.a[4]), []).append(p)
    for (key, path), ps in keys.items():
        kinds = []
        for s in states:
            v = s.store.get(key)
            v = at_path(v, path) if v is not None else None
            if v is None:
                kinds.append(None)
                continue
            k = None
            for p in ps:
                rs = roots(r, v, cx, blocks, h)
                if rs and all(strict(r, x, p, s) == 'less' and not g for x, g in rs):
                    k = 'less'
                if counter(r, v, p, s):
                    k = 'less'
            kinds.append(k)
        if kinds and all(k == 'less' for k in kinds):
            return True, 'every pass shortens the list or advances the counter it is driven by'
    for (key, path), ps in keys.items():
        k, why = worklist(r, cx, h, blocks, states, key, path, ps, keys)
        if k is not None:
            return k, why
    return stuck(r, cx, h, blocks, states, keys)


def counter(r, v, p, s):
    try:
        k, ps = lin_parts(sub(v, p))
    except Exception:
        return False
    if ps or k == 0:
        return False
    for c in s.facts:
        hit = False
        for t, q in c.d.items():
            if t.op == 'le0' and q.single() in (0, 1):
                _, xs = lin_parts(t.a[0])
                co = xs.get(p)
                if co is None or any(x in r.I.phis for x in xs if x is not p):
                    continue
                up = (co > 0) == (q.single() == 1)       # bounds p from above
                if up == (k > 0):
                    hit = True
            elif t is p and not q.has((1 << 200) if k > 0 else -(1 << 200)):
                hit = True
        if not hit:
            return False
    return bool(s.facts)


def pushes(r, cx, h, blocks, states, key):
    """(state, list before, item) at every place inside the loop that adds to the list stored under key."""
    out, other = [], False
    for (c2, h2), (b2, sts) in r.I.loops.items():
        if c2 is cx and h2 in blocks:
            for s in sts:
                v = s.store.get(key)
                while v is not None and v.op == 'push':
                    out.append((s, v.a[0], v.a[1]))
                    v = v.a[0]
                if v is not None and v.op in ('ext', 'concat', 'unk'):
                    other = True
    return out, other


def worklist(r, cx, h, blocks, states, key, path, ps, keys):
    if path:
        return None, ''
    popped, ok1 = False, True
    for s in states:
        v = s.store.get(key)
        if v is None:
            return None, ''
        rs = roots(r, v, cx, blocks, h)
        if not rs:
            return None, ''
        if all(any(strict(r, x, p) == 'less' for p in ps) for x, _ in rs):
            popped = True
            continue
        if not all(any(x is p for p in ps) for x, _ in rs):
            return None, ''
        # nothing is taken on this way round: only from an empty list, and never again because no way round leaves it empty
        for c in s.facts:
            if not any(F.cset(c, seqlen(p)).single() == 0 for p in ps):
                ok1 = False
    if not popped:
        return None, ''
    if not ok1 or not all(lo(F.cset(c, seqlen(s.store[key]))) >= 1 for s in states for c in s.facts):
        if any(rs and any(x is p for x, _ in rs for p in ps) for s in states for rs in [roots(r, s.store[key], cx, blocks, h)]):
            return None, ''
    gs, other = pushes(r, cx, h, blocks, states, key)
    if other:
        return None, ''
    seenkeys = set()
    for s, L, item in gs:
        for c in s.facts:
            g = guard(r, s, c, item, key)
            if g[0] is not True:
                return (False, g[1]) if g[0] is False else (None, '')
            seenkeys.add((g[1], g[2]))
    for k2, _ in seenkeys:
        for s in states:
            rs = roots(r, s.store.get(k2), cx, blocks, h)
            if not all(x.op == 'phi' and x.a[1] == h for x, _ in rs):
                return False, 'the names already seen are forgotten on the way round'
    return True, 'the work list grows only by names that are new to the list of names seen, and every pass takes one off it'


def lo(s):
    return -1 if s is None or not s.iv else s.iv[0][0]


def guard(r, s, c, item, key):
    """A push of item under facts c is guarded by a list of names that gets the same name: (True, list key, name), or
    (False, why), or (None,)."""
    xs = item.a[2] if item.op == 'agg' else (item,)
    tests = []
    for t, q in c.d.items():
        if t.op == 'exists' and q.single() == 0 and t.a[0].op == 'over':
            S = t.a[0].a[0]
            for alt in t.a[1]:
                alt = dict(alt)
                if len(alt) != 1:
                    continue
                (k, z), = alt.items()
                if k.op == 'eq' and z.single() == 1:
                    for a, b in (k.a, k.a[::-1]):
                        if a.op == 'idx' and a.a[0] is S or any(y.op == 'idx' and y.a[0] is S for y in subterms(a)):
                            tests.append((S, b))
    near = [t for t in c.d if t.op in ('exists', 'count') and any(x in r.I.phis for x in subterms(t.a[0]))]
    if not tests:
        for t, q in c.d.items():
            if t.op == 'exists' and q.single() == 1 and t.a[0].op == 'over':
                for v in s.store.values():
                    if v.op == 'push' and v.a[0] is t.a[0].a[0] and all(
                            len(alt) == 1 and all(k.op == 'eq' and z.single() == 1 and any(x is v.a[1] for x in k.a) for k, z in alt) for alt in t.a[1]):
                        return False, 'an entry is added to the work list although its name (%s) is among those seen' % show(v.a[1])[:100]
        if near or r.imprecise(item) is not None:
            return (None,)
        return False, 'an entry is added to the work list without a check that it is new: %s' % show(item)[:160]
    grew, wrong = False, None
    for S, n in tests:
        for k2, v in s.store.items():
            if v.op == 'push' and k2 != key or (k2 == key and v.op == 'push'):
                if v.a[0] is S and v.a[1] is n:
                    if k2 == key:
                        continue
                    return True, k2, n
                if v.a[0] is S:
                    grew = True
                    if r.imprecise(v.a[1]) is None and r.imprecise(n) is None and not same(c, v.a[1], n):
                        wrong = v.a[1]
    S, n = tests[0]
    if wrong is not None:
        return False, 'the name recorded as seen (%s) is not the one tested (%s)' % (show(wrong)[:80], show(n)[:80])
    if grew or not any(v is S for v in s.store.values()):
        return (None,)
    # the list of names seen is carried on without the new name
    return False, 'an entry is added to the work list but its name is not recorded as seen: %s' % show(n)[:100]


def stuck(r, cx, h, blocks, states, keys):
    """A way round that leaves everything the loop's conditions read as it was."""
    phis = {p for ps in keys.values() for p in ps}
    body = r.P.body(r.f) if cx.a[0] == 'root' else None
    if body is None:
        return None, 'not analysed'
    _, odd = iter_edges(r.P, body, blocks)
    if odd:
        return None, 'iterates with %s' % odd[:2]
    for s in states:
        m = {}
        for p in r.I.phis:
            if inner(r, p, cx, blocks, h) and p.a[0] is cx:
                b = [v for v, _ in r.I.phis[p] if not any(x is p for x in subterms(v))]
                if b:
                    m[p] = b[0]

        def base(t):
            for _ in range(12):
                t2 = subst(t, m)
                if t2 is t:
                    return t
                t = t2
            return t
        for c in s.facts:
            read, bad = set(), False
            for t, q in c.d.items():
                if t.op == 'done':
                    continue
                t2 = base(t)
                read |= {x for x in subterms(t2) if x in phis}
                if is_num(t2):
                    bad |= not q.has(t2.a[0])
                elif t2 in c.d and t2 is not t:
                    bad |= iinter(c.d[t2], q).iv == ()
                if r.imprecise(t2) is not None:
                    bad = True
            if bad or not read:
                continue
            moved = False
            for p in read:
                v = s.store.get(p.a[3])
                v = at_path(v, p.a[4]) if v is not None else None
                v = base(v) if v is not None else None
                if v is not p:
                    moved = True
            if not moved and not any(x in phis for t in c.d for x in subterms(t)):
                # what is read is only so for values of loops inside on their entry
                return None, 'carried through a loop inside'
            if not moved:
                return False, 'a pass can leave everything its conditions read as it was (%s)' % ', '.join(sorted(show(t)[:60] + ' in %r' % q for t, q in c.d.items() if any(x in phis for x in subterms(t))))[:300]
    # a walk whose next value is a field of some element of the data, with nothing else carried that could bound it
    seqs = [p for p in phis if any(x.op in ('push', 'slice', 'ext', 'comp', 'bytes', 'arr', 'concat') or x is NIL for x, _ in r.I.phis[p])]
    ints = [p for p in phis if any(is_num(x) or x.op in ('lin', 'wrap') for x, _ in r.I.phis[p])]
    jump = [(p, x) for p in phis for x, _ in r.I.phis[p] if x.op == 'fld' and any(y.op == 'idx' and y.a[0] not in r.I.phis for y in subterms(x))]
    if jump and not seqs and not ints:
        return False, 'the walk goes on to %s, and nothing bounds the number of steps' % show(jump[0][1])[:120]
    return None, 'no ranking found'


def judge(ctx, rep, fs, tag, cfg='lib'):
    """Every loop of the given functions."""
    P = ctx.prog(cfg)
    n = 0
    for f in fs:
        body = P.body(f)
        for h in sorted(body.loop):
            blocks = body.loop[h]
            n += 1
            w = f['span']
            es, odd = iter_edges(P, body, blocks)
            if es and not cyclic(body, blocks, h, {e for e, _ in es}):
                rep.good(tag + ':iterator', 'every pass takes an item from a finite iterator: ' + f['path'], w)
                continue
            k, why = None, 'not analysed'
            r = ctx.run(f, cfg)
            if r.ok and not r.unmod():
                cx = next((c for c, hh in r.I.loops if hh == h and c.a[0] == 'root'), None)
                if cx is None:
                    k, why = (True, 'is never entered') if r.rets else (None, 'not reached')
                else:
                    k, why = loop(rep, r, tag, cx, h, w)
            else:
                why = r.why or 'unmodelled'
            rep.judge(tag + ':loop', k, '%s: %s' % (f['path'], why), w)
    return n
