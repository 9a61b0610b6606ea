"""Models of the standard library and of the external crates, for the abstract interpreter.

Each model maps (state, arguments) to a list of (state, result).  Models that can panic emit an
'assert' event carrying the condition under which they do not, and continue under that condition.
"""
import re
from terms import *
import facts as F
from facts import Conj, TOP, lexlt

OPT = 'std::option::Option'
RES = 'std::result::Result'
LOG = ('log', 0)
UMAX = (1 << 64) - 1


# ------------------------------------------------------------------ small helpers
def some(x):
    return mk('agg', OPT, 1, (x,))


def none():
    return mk('agg', OPT, 0, ())


def ok(x):
    return mk('agg', RES, 0, (x,))


def err(x):
    return mk('agg', RES, 1, (x,))


def ordv(n):
    return mk('agg', 'std::cmp::Ordering', n, ())      # 0 Less, 1 Equal, 2 Greater


def part(st, b):
    """Split a state by a boolean term: [(state, True/False)]."""
    if is_num(b):
        return [(st, bool(b.a[0]))]
    out = []
    for v in (1, 0):
        s = st.assume(b, iset(v))
        if s is not None:
            out.append((s, v == 1))
    return out


def oblig(I, cx, st, kind, cond):
    """Panics unless cond: emits the event and returns the surviving state (or None)."""
    cx.ev('assert', kind, (cond,), st if not is_num(cond) or not cond.a[0] else st)
    if is_num(cond):
        return st if cond.a[0] else None
    return st.assume(cond, iset(1))


def elems_of(t):
    """Identities of the iteration elements occurring in t (memoised)."""
    r = t._hs
    if r is None:
        s = set()
        if t.op == 'elem':
            s.add(t)
        st = [t.a]
        while st:
            x = st.pop()
            for y in x:
                if isinstance(y, T):
                    s |= elems_of(y)
                elif isinstance(y, (tuple, frozenset)):
                    st.append(y)
        r = t._hs = frozenset(s)
    return r


def fsubst(facts, m, memo):
    out = []
    for c in facts:
        cs = [F.EMPTYC]
        for t, s in c.d.items():
            n = subst(t, m, memo)
            cs = [y for x in cs for y in F.assume(x, n, s)]
        out += cs
    return F.dnf_norm(out)


def freshen(st, e):
    """Rename element e of the previous iteration before binding it again."""
    hit = any(e in elems_of(v) for v in st.store.values()) or any(e in elems_of(t) for c in st.facts for t in c.d)
    if not hit:
        return st
    old = mk('elem', e.a[0], mk('prev', e.a[1]))
    if e in ranges:
        ranges.setdefault(old, ranges[e])
    m = {e: old}
    memo = {}
    store = {}
    for k, v in st.store.items():
        store[k] = subst(v, m, memo) if e in elems_of(v) else v
    fs = []
    for c in st.facts:
        if any(e in elems_of(t) for t in c.d):
            d = {}
            for t, s in c.d.items():
                if e in elems_of(t):
                    continue          # facts about the earlier element are dropped
                d[t] = s
            fs.append(Conj(d))
        else:
            fs.append(c)
    from engine import State
    return State(store, F.dnf_norm(fs))


# ------------------------------------------------------------------ iteration
def stream(base, ops=(), pos=0):
    return mk('stream', base, tuple(ops), pos)


def seqit(S, ety):
    return mk('seqit', S, ety)


def mkelem(D, site, lo=None, hi=None):
    e = mk('elem', D, site)
    if e not in ranges:
        l, h = rng(lo).lo() if lo is not None else 0, rng(hi).hi() if hi is not None else (1 << 63) - 1
        set_range(e, irange(l if l is not None else 0, h - 1 if h is not None else (1 << 63) - 1))
    return e


def underlying(S):
    """Strip order-only wrappers."""
    while S.op in ('sorted', 'dedup', 'rev'):
        S = S.a[0]
    return S


def elements(I, cx, st, base, site):
    """Candidate next elements of base: list of (state, value, index term)."""
    k = base.op
    if k == 'seqit':
        S, ety = base.a
        return seq_elements(I, cx, st, S, ety, site)
    if k == 'range':
        a, b = base.a
        e = mkelem(base, site, a, b)
        s = freshen(st, e)
        s = s.assume(le0(sub(a, e)), iset(1))
        s = s and s.assume(lt(e, b), iset(1))
        return [(s, e, e)] if s is not None else []
    if k == 'seqitmut':
        ref = base.a[0]
        S = I.val(st, ref)
        D = mk('range', num(0), seqlen(S))
        e = mkelem(D, site, num(0), seqlen(S))
        s = freshen(st, e)
        s = s.assume(lt(e, seqlen(S)), iset(1))
        if s is None:
            return []
        return [(s, mk('ref', ref.a[0], tuple(ref.a[1]) + (('I', e),)), e)]
    if k == 'chain':
        out = []
        for i, b in enumerate(base.a):
            for s, v in next_some(I, cx, st, b, mk('sub', site, i)):
                out.append((s, v, mk('chainidx', site)))
        return out
    if k == 'zip':
        out = []
        for s, v, i in next_some_i(I, cx, st, base.a[0], mk('sub', site, 0)):
            for s2, w, j in next_some_i(I, cx, s, base.a[1], mk('sub', site, 1)):
                out.append((s2, tup(v, w), i))
        return out
    if k == 'chunks':
        S, n, ety = base.a
        e = mkelem(base, site)
        s = freshen(st, e)
        L = seqlen(S)
        p = mk('chunk', S, n, e)
        lp = seqlen(p)
        if is_num(n):
            if is_num(mod(L, n.a[0])) and mod(L, n.a[0]).a[0] == 0:
                set_range(lp, iset(n.a[0]))
            else:
                set_range(lp, irange(1, n.a[0]))
        s = s.assume(le0(sub(num(1), L)), iset(1))
        return [(s, p, e)] if s is not None else []
    if k == 'windows':
        S, n, ety = base.a
        D = mk('range', num(0), add(sub(seqlen(S), n), num(1)))
        e = mkelem(D, site)
        s = freshen(st, e)
        s = s.assume(le0(sub(add(e, n), seqlen(S))), iset(1))
        return [(s, slice_(S, e, add(e, n)), e)] if s is not None else []
    if k == 'split':
        e = mkelem(base, site)
        s = freshen(st, e)
        return [(s, mk('part', base, e), e)]
    e = mkelem(base, site)
    s = freshen(st, e)
    return [(s, mk('itelem', base, e), e)]


def seq_elements(I, cx, st, S, ety, site):
    U = underlying(S)
    if U.op == 'comp':
        base, alts = U.a[0], U.a[1]
        bv = U.a[2]
        D = mk('seqdrv', S)
        e = mkelem(D, site)
        if bv in ranges:
            ranges[e] = ranges[bv]
        out = []
        st = freshen(st, e)
        for delta, v in sorted(alts, key=lambda p: (p[1].id, len(p[0]))):
            m = {bv: e}
            memo = {}
            s = st
            for t, r in sorted(delta, key=lambda p: p[0].id):
                s = s.assume(subst(t, m, memo), r)
                if s is None:
                    break
            if s is None:
                continue
            out.append((s, subst(v, m, memo), e))
        return out
    if U is not S:
        D = mk('seqdrv', S)
        e = mkelem(D, site, num(0), seqlen(U))
        s = freshen(st, e).assume(lt(e, seqlen(U)), iset(1))
        if s is None:
            return []
        v = idx(U, e)
        I.note(v, ety)
        return [(s, v, e)]
    if S.op in ('ext',) and S.a[0].op in ('comp', 'push', 'ext') or S.op == 'push':
        # concatenation of sequences of records: an element of either part
        out = []
        segs = segments(S)
        if len(segs) > 1:
            for i, (kind, x) in enumerate(segs):
                if kind == 'one':
                    s = st.copy()
                    out.append((s, x, mk('segidx', site, i)))
                else:
                    out += seq_elements(I, cx, st, x, ety, mk('sub', site, i))
            return out
    if S.op == 'arr' and len(S.a[0]) and any(x.op != 'int' for x in S.a[0]) and len(S.a[0]) <= 6:
        out = []
        D = mk('range', num(0), seqlen(S))
        e = mkelem(D, site, num(0), seqlen(S))
        st = freshen(st, e)
        for i, x in enumerate(S.a[0]):
            s = st.assume(e, iset(i))
            if s is not None:
                out.append((s, x, num(i)))
        return out
    D = mk('range', num(0), seqlen(S))
    e = mkelem(D, site, num(0), seqlen(S))
    s = freshen(st, e)
    s = s.assume(lt(e, seqlen(S)), iset(1))
    if s is None:
        return []
    v = idx(S, e)
    I.note(v, ety)
    return [(s, v, e)]


def segments(S):
    if S.op == 'push':
        return segments(S.a[0]) + [('one', S.a[1])]
    if S.op == 'ext':
        return segments(S.a[0]) + segments(S.a[1])
    if S.op == 'bytes' and not S.a[0]:
        return []
    return [('seq', S)]


def apply_ops(I, cx, st, ops, v, i, tag, skipped=False):
    """Run the adaptor operations on element v: list of (state, value, index) kept."""
    cur = [(st, v, i)]
    exact = True
    turn = lambda i: sub(i, i.a[0].a[0]) if i.op == 'elem' and i.a[0].op == 'range' and i.a[0].a[0] is not num(0) else i     # position among what is left, for an element at i
    for n, o in enumerate(ops):
        k = o.a[0]
        nxt = []
        for s, x, i in cur:
            if k == 'map':
                for s2, y in cx.closure(s, o.a[1], [x], '%s.%d' % (tag, n)):
                    nxt.append((s2, y, i))
            elif k == 'filter':
                for s2, y in cx.closure(s, o.a[1], [x], '%s.%d' % (tag, n)):
                    y = I.val(s2, y)
                    s3 = s2.assume(y, iset(1)) if not is_num(y) else (s2 if y.a[0] else None)
                    if s3 is not None:
                        nxt.append((s3, x, i))
                exact = False
            elif k in ('filter_map', 'map_while'):
                for s2, y in cx.closure(s, o.a[1], [x], '%s.%d' % (tag, n)):
                    for s3, isome, z in split_opt(I, s2, y):
                        if isome:
                            nxt.append((s3, z, i))
                exact = False
            elif k in ('take_while', 'skip_while'):
                if k == 'take_while':
                    for s2, y in cx.closure(s, o.a[1], [x], '%s.%d' % (tag, n)):
                        y = I.val(s2, y)
                        s3 = s2.assume(y, iset(1)) if not is_num(y) else (s2 if y.a[0] else None)
                        if s3 is not None:
                            nxt.append((s3, x, i))
                else:
                    nxt.append((s, x, i))
                exact = False
            elif k == 'enumerate':
                p = turn(i) if exact else None
                nxt.append((s, tup(p if p is not None else mk('count', i), x), i))
            elif k in ('copied', 'cloned', 'rev', 'peekable', 'by_ref', 'fuse'):
                nxt.append((s, x, i))
            elif k == 'inspect':
                for s2, y in cx.closure(s, o.a[1], [x], '%s.%d' % (tag, n)):
                    nxt.append((s2, x, i))
            elif k == 'skip' and exact and len(o.a) > 1 and is_num(o.a[1]) and turn(i) is i and is_elem(i):
                z = s.assume(le0(sub(add(first_of(i), o.a[1]), i)), iset(1))
                if z is not None:
                    nxt.append((z, x, i))
            elif k in ('skip', 'take', 'step_by'):
                exact = exact and k == 'take'
                nxt.append((s, x, i))
            else:
                nxt.append((s, mk('unk', 'iterop', k, x), i))
        if k == 'rev':
            turn = (lambda old: lambda i: from_end(old(i), i))(turn)
        elif k == 'skip' and exact and turn(i) is i and len(o.a) > 1 and is_num(o.a[1]):
            turn = (lambda n: lambda i: sub(i, n))(o.a[1])
        if k in PARTIAL:
            nxt = [(kept(s, k, o, i), x, i) for s, x, i in nxt]
        cur = nxt
    return cur


def is_elem(i):
    return i.op == 'elem' and i.a[0].op in ('range', 'seqdrv')


def first_of(i):
    return i.a[0].a[0] if i.a[0].op == 'range' else num(0)


def from_end(p, i):
    """The position counted from the other end."""
    if p is not i:
        return None
    if i.op == 'int':
        return i
    if not is_elem(i):
        return None
    n = i.a[0].a[1] if i.a[0].op == 'range' else seqlen(underlying(i.a[0].a[0]))
    return sub(sub(n, num(1)), sub(i, first_of(i)))


PARTIAL = ('take_while', 'skip_while', 'map_while', 'take', 'skip', 'step_by')


def kept(s, k, o, i):
    """The element is one the position-dependent adaptor lets through (which ones is not tracked)."""
    t = mk('kept', k, o.a[1] if len(o.a) > 1 else UNIT, i)
    set_range(t, BOOL)
    return s.assume(t, iset(1)) or s


def next_some_i(I, cx, st, it, site):
    base, ops = it.a[0], it.a[1]
    out = []
    for s, v, i in elements(I, cx, st, base, site):
        out += apply_ops(I, cx, s, ops, v, i, 'op')
    return out


def next_some(I, cx, st, it, site):
    return [(s, v) for s, v, _ in next_some_i(I, cx, st, it, site)]


def split_opt(I, st, y):
    """Option value -> [(state, is_some, payload)]"""
    if y.op == 'ref':
        y = I.val(st, y)
    if y.op == 'agg':
        return [(st, y.a[1] == 1, y.a[2][0] if y.a[1] == 1 else None)]
    d = mk('discr', y)
    set_range(d, BOOL)
    out = []
    for s, b in ((st.assume(d, iset(1)), True), (st.assume(d, iset(0)), False)):
        if s is not None:
            out.append((s, b, I.getfld(y, 'Some.0') if b else None))
    return out


def nonempty_cond(base):
    """Condition under which base surely yields an element (None if unknown)."""
    if base.op == 'seqit':
        S = base.a[0]
        if underlying(S).op == 'comp':
            return None
        return le(num(1), seqlen(underlying(S)))
    if base.op == 'range':
        return lt(base.a[0], base.a[1])
    if base.op == 'chunks':
        return le(num(1), seqlen(base.a[0]))
    return None


def literal(it):
    """Elements of a short literal sequence, or None."""
    b = it.a[0]
    if b.op == 'seqit':
        S = b.a[0]
        if S.op == 'arr' and len(S.a[0]) <= 16:
            return list(S.a[0])
        if S.op == 'bytes' and len(S.a[0]) <= 4:
            return [num(x) for x in S.a[0]]
    if b.op == 'seqitmut' and len(b.a) == 2:
        return [mk('ref', b.a[0].a[0], tuple(b.a[0].a[1]) + (('I', num(k)),)) for k in range(b.a[1].a[0])]
    if b.op == 'range' and is_num(b.a[0]) and is_num(b.a[1]) and 0 <= b.a[1].a[0] - b.a[0].a[0] <= 4:
        return [num(x) for x in range(b.a[0].a[0], b.a[1].a[0])]
    return None


def deltas(I, st, s):
    """Facts of s beyond those of st, as a list of frozensets."""
    base = F.dnf_common(st.facts)
    out = []
    for c in s.facts:
        d = []
        for t, r in c.d.items():
            o = base.d.get(t)
            if o is not None and o == r:
                continue
            d.append((t, r))
        out.append(frozenset(d))
    return out


class BV:
    """Evaluate something over a bound element."""
    level = 0


def over_bound(I, cx, st, base, ops, fn, tag):
    """Run fn(state, value) over a bound element of base; returns (D, bv, [(delta, result)]) with pure deltas."""
    from engine import State
    BV.level += 1
    try:
        site = mk('bv', BV.level)
        st0 = State(dict(st.store), (F.dnf_common(st.facts),))
        res = []
        bvs = set()
        D = None
        for s, v, i in elements(I, cx, st0, base, site):
            bvs.add(i)
            for s2, x, i2 in apply_ops(I, cx, s, ops, v, i, tag):
                for s3, r in fn(s2, x):
                    for d in deltas(I, st0, s3):
                        res.append((d, r))
        return bvs, res
    finally:
        BV.level -= 1


def clean_delta(d, bvs):
    """Drop the range facts of the bound index itself (they are part of the base)."""
    out = []
    for t, r in d:
        if t.op in ('le0', 'in', 'elem') and elems_of(t) & bvs:
            # index < length facts
            c, p = lin_parts(t.a[0]) if t.op == 'le0' else (0, {})
            if t.op == 'elem':
                continue
            if t.op == 'le0' and any(k in bvs for k in p) and all(k in bvs or k.op == 'len' and not elems_of(k) & bvs for k in p):
                continue
        out.append((t, r))
    return frozenset(out)


def cbase(base):
    """Canonical base of a quantifier."""
    if base.op == 'seqit':
        return mk('over', base.a[0])
    return base


def existsb(I, cx, st, it, pred, tag):
    """Canonical boolean: some element of the stream satisfies pred."""
    base, ops = it.a[0], it.a[1]

    def fn(s, x):
        if pred is None:
            return [(s, TRUE)]
        out = []
        for s2, y in pred(s, x):
            y = I.val(s2, y)
            for s3, b in part(s2, y):
                if b:
                    out.append((s3, TRUE))
        return out
    bvs, res = over_bound(I, cx, st, base, ops, fn, tag)
    conj = frozenset(clean_delta(d, bvs) for d, r in res)
    if not conj:
        return FALSE
    if frozenset() in conj:
        c = nonempty_cond(base)
        if c is not None:
            return c
        conj = frozenset([frozenset()])
    lit = literal(it)
    return mk('exists', cbase(base), conj)


def next_sites(I, fr, b, base):
    """Number of places within loop b of this frame that advance an iterator over base."""
    loop = fr.body.loop[b]
    return sum(1 for c, bb in I.nexts.get(base, ()) if I.in_loop(c, bb, fr, loop))


def loop_of(fr, b):
    hs = [h for h in fr.body.loop if b in fr.body.loop[h]]
    return min(hs, key=lambda h: len(fr.body.loop[h])) if hs else None


def consumed(I, cx, st, base, e):
    """Note that this iteration's element of base is e."""
    if e.op != 'elem' or base.op not in ('seqit', 'range', 'opaqueit') or e.a[0].op == 'seqdrv':
        return
    h = loop_of(cx.fr, cx.b)
    if h is None:
        return
    k = ('cur', cx.fr.ctx, h)
    o = st.store.get(k)
    st.store[k] = mk('curs', (o.a[0] if o is not None else frozenset()) | {(cx.site, base, e)})
    st._k = None


def all_consumed(I, cx, st, s, base, ops):
    """At the end of an iteration over base: what held of every element."""
    h = loop_of(cx.fr, cx.b)
    if h is None or s is None:
        return s
    fa = s.store.get(('fa', cx.fr.ctx, h))
    if fa is None or base in fa.a[1]:
        return s
    alts = dict(fa.a[0]).get((cx.site, base))
    if not alts:
        return s
    bvs, res = over_bound(I, cx, st, base, ops, lambda s2, x: [(s2, TRUE)], 'fa')
    filt = {clean_delta(d, bvs) for d, r in res}
    if not filt or len(filt) > 4:
        return s
    neg = [dict(f) for f in filt]
    for a in alts:
        nxt = []
        for n in neg:
            for t, r in a:
                c = iinter(n.get(t, rng(t)), icompl(r, rng(t)))
                if not c.iv:
                    continue
                nxt.append(dict(n, **{}) | {t: c})
        neg = nxt
        if len(neg) > 16:
            return s
    conj = frozenset(frozenset(n.items()) for n in neg)
    if not conj:
        return s
    return s.assume(mk('exists', cbase(base), conj), iset(0)) or s


def do_next(I, cx, st, itref, back=False):
    """Iterator::next on a mutable stream."""
    it = I.val(st, itref)
    if it.op != 'stream':
        return None
    base, ops, pos = it.a
    site = cx.site
    I.nexts.setdefault(base, set()).add((cx.fr.ctx, cx.b))
    out = []
    lit = literal(it) if isinstance(pos, int) else None
    if lit is not None and isinstance(pos, int):
        # a literal sequence that has not been through a loop head: exact elements
        done = True
        cur = [(st, pos)]
        while cur:
            nxt = []
            for s, p in cur:
                k = p if not (back or any(o.a[0] == 'rev' for o in ops)) else len(lit) - 1 - p
                if p >= len(lit):
                    s = s.copy()
                    I.store_ref(s, itref, [], mk('stream', base, ops, p))
                    out.append((s, none()))
                    continue
                kept = apply_ops(I, cx, s, ops, lit[k], num(p), 'op%d' % p)
                for s2, v, _ in kept:
                    s2 = s2.copy()
                    I.store_ref(s2, itref, [], mk('stream', base, ops, p + 1))
                    out.append((s2, some(v)))
                if not kept or any(o.a[0] in ('filter', 'filter_map') for o in ops):
                    if kept and not any(o.a[0] in ('filter', 'filter_map') for o in ops):
                        continue
                    nxt.append((s, p + 1))
            cur = nxt
        return out
    if base.op == 'split' and not ops and pos == 'end':
        return [(st, none())]
    if base.op == 'split' and not ops and isinstance(pos, int):
        n = mk('nparts', base)
        always = base.a[0] in ('split', 'rsplit')
        set_range(n, irange(1 if always else 0, None))
        s2 = st.assume(n, irange(pos + 1, None))
        if s2 is not None:
            s2 = s2.copy()
            I.store_ref(s2, itref, [], mk('stream', base, ops, pos + 1))
            out.append((s2, some(mk('part', base, num(pos)))))
        if pos == 0 and always:
            return out
        s2 = st.assume(n, irange(0, pos))
        if s2 is not None:
            s2 = s2.copy()
            I.store_ref(s2, itref, [], mk('stream', base, ops, 'end'))
            out.append((s2, none()))
        return out
    # Some
    for s, v, i in elements(I, cx, st, base, site):
        for s2, x, _ in apply_ops(I, cx, s, ops, v, i, 'op'):
            s2 = s2.copy()
            I.store_ref(s2, itref, [], mk('stream', base, ops, pos + 1 if isinstance(pos, int) else pos))
            consumed(I, cx, s2, base, i)
            out.append((s2, some(x)))
    # None
    s = all_consumed(I, cx, st, st, base, ops) if pos == '*' else st
    filt = any(o.a[0] in ('filter', 'filter_map', 'take_while', 'skip', 'take', 'skip_while', 'step_by', 'map_while') for o in ops)
    if pos == 0:
        c = nonempty_cond(base)
        if c is not None and not filt:
            s = s.assume(c, iset(0))
        elif filt and not any(o.a[0] in ('take_while', 'skip', 'take', 'skip_while', 'step_by', 'map_while') for o in ops):
            e = existsb(I, cx, st, stream(base, ops), None, 'none')
            s = s.assume(e, iset(0)) if not is_num(e) else (s if not e.a[0] else None)
    if s is not None:
        s = s.copy()
        d = mk('done', base, ops_id(ops), site)
        set_range(d, BOOL)
        s2 = s.assume(d, iset(1))
        I.store_ref(s2, itref, [], mk('stream', base, ops, 'end'))
        if pos != 'end' or True:
            out.append((s2, none()))
    if pos == 'end':
        return [(s2, none())] if s is not None else []
    return out


def ops_id(ops):
    return tuple(o.a[0] for o in ops)


def to_stream(I, st, v, ety=None):
    """IntoIterator::into_iter on a value."""
    if v.op == 'stream':
        return v
    if v.op == 'agg' and isinstance(v.a[0], str):
        p = v.a[0]
        if p.endswith('ops::Range') or p.endswith('range::Range'):
            return stream(mk('range', v.a[2][0], v.a[2][1]))
        if p.endswith('ops::RangeInclusive'):
            return stream(mk('range', v.a[2][0], add(v.a[2][1], num(1))))
        if p == OPT:
            return stream(seqit(arr([v.a[2][0]]) if v.a[1] == 1 else NIL, ety))
    return None


def as_it(I, st, v):
    """Stream behind a value or reference (Range values are streams too)."""
    v = I.val(st, v)
    if v.op == 'stream':
        return v
    return to_stream(I, st, v)


def find_like(I, cx, st, it, pred, tag):
    """First element satisfying pred: ([(state, value, index)], [state where none does])."""
    lit = literal(it)
    base, ops = it.a[0], it.a[1]
    if lit is not None and len(lit) <= 16:
        hits, cur = [], [st]
        for p, x in enumerate(lit):
            nxt = []
            for s in cur:
                for s2, v, _ in apply_ops(I, cx, s, ops, x, num(p), '%s%d' % (tag, p)) or []:
                    for s3, y in pred(s2, v):
                        y = I.val(s3, y)
                        for s4, b in part(s3, y):
                            (hits if b else nxt).append((s4, v, num(p)) if b else s4)
                if any(o.a[0] in ('filter', 'filter_map') for o in ops):
                    nxt.append(s)
            from engine import State
            cur = merge_states(I, cx, nxt)
        return hits, cur
    hits = []
    for s, v, i in elements(I, cx, st, base, cx.site):
        for s2, x, j in apply_ops(I, cx, s, ops, v, i, tag):
            for s3, y in pred(s2, x):
                y = I.val(s3, y)
                for s4, b in part(s3, y):
                    if b:
                        hits.append((s4, x, j))
    e = existsb(I, cx, st, it, pred, tag + 'n')
    miss = []
    # the existence of a witness is also recorded as a fact on the positive side
    if not is_num(e):
        h2 = []
        for s, x, j in hits:
            s2 = s.assume(e, iset(1))
            if s2 is not None:
                h2.append((s2, x, j))
        hits = h2
        s = st.assume(e, iset(0))
        if s is not None:
            miss.append(s)
    elif not e.a[0]:
        miss.append(st)
        hits = []
    return hits, miss


def merge_states(I, cx, ss):
    from engine import State
    groups = {}
    for s in ss:
        groups.setdefault(s.skey(), []).append(s)
    return [g[0] if len(g) == 1 else State(g[0].store, F.dnf_norm([c for s in g for c in s.facts])) for g in groups.values()]


def comp_of(I, cx, st, it, tag):
    """Sequence of the elements of a stream: canonical comprehension term (or a simpler one)."""
    base, ops = it.a[0], it.a[1]
    lit = literal(it)
    if not ops and base.op == 'seqit':
        return base.a[0]
    if lit is not None and all(o.a[0] in ('map', 'copied', 'cloned', 'enumerate') for o in ops):
        items = []
        s = st
        for p, x in enumerate(lit):
            r = apply_ops(I, cx, s, ops, x, num(p), '%s%d' % (tag, p))
            if len(r) != 1:
                items = None
                break
            s, v, _ = r[0]
            items.append(v)
        if items is not None:
            return arr(items)
    if all(o.a[0] in ('copied', 'cloned') for o in ops) and base.op == 'seqit':
        return base.a[0]
    bvs, res = over_bound(I, cx, st, base, ops, lambda s, x: [(s, x)], tag)
    if len(bvs) != 1:
        return mk('collect', it, cx.site)
    bv = list(bvs)[0]
    alts = frozenset((clean_delta(d, bvs), v) for d, v in res)
    if len(alts) == 1:
        (d, v), = alts
        if not d and base.op == 'seqit' and v.op == 'idx' and v.a[0] is base.a[0]:
            return base.a[0]
    t = mk('comp', cbase(base), alts, bv)
    if not any(o.a[0] in ('filter', 'filter_map', 'take_while', 'take', 'skip', 'skip_while', 'step_by', 'map_while') for o in ops):
        pass
    return t


def fold_loop(I, cx, st, it, acc, body, tag):
    """Accumulate over a stream with phi joins.  body(state, acc, elem) -> [(state, acc)]."""
    fr, b = cx.fr, cx.b
    key = (mk('acc', cx.site, tag), 'acc')
    I.ltypes.setdefault(key[0], {})['acc'] = cx.destty
    pk = ('nl', tag)
    st = st.copy()
    st.store[key] = acc
    st._k = None
    head = st
    rec = []
    for n in range(8):
        outs = []
        for s, v, i in elements(I, cx, head, it.a[0], cx.site):
            for s2, x, _ in apply_ops(I, cx, s, it.a[1], v, i, tag):
                a = s2.store.get(key, acc)
                for s3, na in body(s2, a, x):
                    s3 = s3.copy()
                    s3.store[key] = na
                    s3._k = None
                    outs.append(s3)
        j = head
        for s in outs:
            j = I.join2(j, s, fr, b, pk)
        if j.key() == head.key():
            break
        head = j
    accs = []
    for k, v in head.store.items():
        ph = []
        I.phi_paths(v, None, None, ph)
        for phi in ph:
            if phi.a[0] is fr.ctx and phi.a[1] == b and phi.a[2] == pk:
                I.phis[phi] = []
    I.record_into(head.store, st, head)
    for s in outs:
        I.record_into(head.store, s, head)
    d = mk('done', it.a[0], ops_id(it.a[1]), cx.site)
    set_range(d, BOOL)
    s = head.assume(d, iset(1))
    r = s.store.pop(key)
    s._k = None
    return s, r


# ------------------------------------------------------------------ comparisons
def seq_eq(a, b):
    return eq(a, b)


def gen_eq(I, st, a, b, ty):
    """Equality of two values of type ty."""
    a, b = I.val(st, a), I.val(st, b)
    if ty is not None:
        T_ = I.P.types[I.P.deref_ty(ty)]
        if T_['k'] in ('int', 'char', 'bool'):
            I.note_int(a, T_)
            I.note_int(b, T_)
            return I.bool_eq(a, b) if T_['k'] == 'bool' else eqi(a, b)
        if T_.get('p') == OPT and a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] == OPT and T_.get('a'):
            if a.a[1] != b.a[1]:
                return FALSE
            return TRUE if not a.a[2] else gen_eq(I, st, a.a[2][0], b.a[2][0], T_['a'][0])
    for x in (a, b):
        if x.op in ('int', 'lin', 'wrap'):
            return eqi(a, b)
    return eq(a, b)


def cmp_result(I, st, kind, a, b):
    """Ordering of a and b: a case split into the three outcomes."""
    L = lt if kind == 'int' else lexlt
    E = eqi if kind == 'int' else eq
    out = []
    for n, c in ((0, L(a, b)), (1, E(a, b)), (2, L(b, a))):
        if is_num(c):
            if c.a[0]:
                return [(st, ordv(n))]
            continue
        s = st.assume(c, iset(1))
        if s is not None:
            out.append((s, ordv(n)))
    return out


# ------------------------------------------------------------------ range arguments
def range_bounds(I, st, r, L):
    """(start, end) of an index argument, None for a plain index."""
    r = I.val(st, r)
    if r.op == 'agg' and isinstance(r.a[0], str):
        p = r.a[0].rsplit('::', 1)[-1]
        fs = [I.val(st, x) for x in r.a[2]]
        if p == 'Range':
            return fs[0], fs[1]
        if p == 'RangeFrom':
            return fs[0], L
        if p == 'RangeTo':
            return num(0), fs[0]
        if p == 'RangeFull':
            return num(0), L
        if p == 'RangeInclusive':
            return fs[0], add(fs[1], num(1))
        if p == 'RangeToInclusive':
            return num(0), add(fs[0], num(1))
    return None


def range_ok(I, cx, st, a, b, L):
    s = oblig(I, cx, st, 'slice_order', le(a, b)) if not (is_num(a) and a.a[0] == 0) else st
    if s is None:
        return None
    return oblig(I, cx, s, 'slice_end', le(b, L)) if b is not L else s


def do_index(I, cx, st, args, mut=False):
    S = I.val(st, args[0])
    L = seqlen(S)
    rb = range_bounds(I, st, args[1], L)
    selfty = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {}
    isstr = selfty.get('k') == 'str' or selfty.get('p', '').endswith('String')
    if rb is not None:
        a, b = rb
        s = range_ok(I, cx, st, a, b, L)
        if s is None:
            return []
        if isstr:
            for x in (a, b):
                if not (is_num(x) and x.a[0] == 0) and x is not L:
                    bd = mk('charbound', S, x)
                    set_range(bd, BOOL)
                    s = oblig(I, cx, s, 'char_boundary', bd)
        if mut:
            ref = args[0]
            if ref.op == 'ref':
                return [(s, mk('ref', ref.a[0], tuple(ref.a[1]) + (('S', a, b),)))]
            return None
        return [(s, slice_(S, a, b))]
    i = I.val(st, args[1])
    s = oblig(I, cx, st, 'bounds', band(le0(scale(i, -1)), lt(i, L)) if rng(i).lo() is None or rng(i).lo() < 0 else lt(i, L))
    if s is None:
        return []
    if mut:
        ref = args[0]
        if ref.op == 'ref':
            return [(s, mk('ref', ref.a[0], tuple(ref.a[1]) + (('I', i),)))]
        return None
    v = idx(S, i)
    I.note(v, I.elem_ty(cx.argtys[0]) if cx.argtys else None)
    return [(s, v)]


# ------------------------------------------------------------------ strings
def pat_seq(I, st, p):
    """Pattern argument as ('seq', bytes term) or ('chars', ISet) or ('fn', closure)."""
    p = I.val(st, p)
    if p.op == 'int':
        c = p.a[0]
        return 'seq', byts(chr(c).encode())
    if p.op in ('bytes', 'ext', 'slice', 'param', 'fld', 'lower', 'idx', 'part', 'phi', 'be', 'wname'):
        return 'seq', p
    if p.op == 'agg' and isinstance(p.a[0], tuple) and p.a[0][0] == 'closure':
        return 'fn', p
    return 'seq', p


def endsw(s, x):
    if x.op == 'bytes':
        if not x.a[0]:
            return TRUE
        if len(x.a[0]) == 1:
            L = seqlen(s)
            return band(le(num(1), L), eqi(idxb(s, sub(L, num(1))), num(x.a[0][0])))
    L, M = seqlen(s), seqlen(x)
    return band(le(M, L), eq(slice_(s, sub(L, M), L), x))


def startsw(s, x):
    if x.op == 'bytes':
        if not x.a[0]:
            return TRUE
        if len(x.a[0]) == 1:
            return band(le(num(1), seqlen(s)), eqi(idxb(s, num(0)), num(x.a[0][0])))
    L, M = seqlen(s), seqlen(x)
    return band(le(M, L), eq(slice_(s, num(0), M), x))


def idxb(s, i):
    v = idx(s, i)
    set_range(v, irange(0, 255))
    return v


def containsb(I, cx, st, s, p):
    k, x = pat_seq(I, st, p)
    if k == 'fn':
        return None
    if s.op == 'bytes' and x.op == 'bytes':
        return num(x.a[0] in s.a[0])
    if x.op == 'bytes' and len(x.a[0]) == 1:
        base = seqit(s, None)
        return exists_byte(s, iset(x.a[0][0]))
    return mk('strp', 'contains', s, x)


def exists_byte(s, iv):
    D = mk('range', num(0), seqlen(s))
    bv = mkelem(D, mk('bv', BV.level + 1), num(0), seqlen(s))
    v = idx(s, bv)
    set_range(v, irange(0, 255))
    t = inset(v, iv)
    return mk('exists', mk('over', s), frozenset([frozenset([(v, iinter(iv, rng(v)))])]))


# ------------------------------------------------------------------ formatting
def parse_template(b):
    """Compact format template -> list of bytes | ('arg', index, flags, width, prec)."""
    out = []
    i = 0
    n = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 128:
            out.append(b[i:i + c])
            i += c
        elif c == 0x80:
            l = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + l])
            i += 2 + l
        else:
            fl = w = p = None
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if c & 2:
                w = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if c & 4:
                p = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if c & 8:
                n = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            out.append(('arg', n, fl, w, p))
            n += 1
    return out


def fmt_arg(I, st, a, fl, w, p):
    kind, v = a.a[1], a.a[2][0]
    kind = a.a[2][1].a[0]
    plain = not w and p is None and (fl is None or fl & 0x1fe00000 == 0)
    v = I.val(st, v)
    ty = a.a[2][2].a[0]
    T_ = I.P.types[I.P.deref_ty(ty)] if ty is not None else {'k': '?'}
    if kind == 'upper_hex' or kind == 'lower_hex':
        return mk('hex', v, w or 0, kind, fl or 0)
    if kind in ('display', 'debug') and not plain:
        return mk('fmtpad', kind, str(T_.get('n')), v)
    if kind == 'display':
        if T_['k'] == 'str' or T_.get('p', '').endswith('string::String'):
            return v
        if T_['k'] == 'int':
            return mk('dec', v) if not is_num(v) else byts(str(v.a[0]).encode())
        if T_['k'] == 'char' and is_num(v):
            return byts(chr(v.a[0]).encode())
        if T_.get('k') == 'struct' and T_.get('local'):
            return mk('disp', T_['p'], v)
        return mk('disp', str(T_.get('n')), v)
    if kind == 'debug' and T_['k'] == 'int':
        return mk('dec', v) if not is_num(v) else byts(str(v.a[0]).encode())
    return mk('fmtdebug', str(T_.get('n')), v)


def args_seq(I, st, tmpl, args):
    """The text produced by a format template."""
    r = NIL
    args = I.val(st, args)
    lst = None
    if args.op == 'arr':
        lst = args.a[0]
    for x in parse_template(tmpl.a[0]):
        if isinstance(x, bytes):
            r = ext(r, byts(x))
        else:
            a = lst[x[1]] if lst is not None and x[1] < len(lst) else None
            a = I.val(st, a) if a is not None else None
            if a is None or a.op != 'agg' or a.a[0] != 'fmtarg':
                r = ext(r, mk('unk', 'fmtarg'))
            else:
                r = ext(r, fmt_arg(I, st, a, x[2], x[3], x[4]))
    return r


# ------------------------------------------------------------------ the tables
PATH = {}
TRAIT = {}


def P(*names):
    def d(f):
        for n in names:
            PATH[n] = f
        return f
    return d


def TR(*names):
    def d(f):
        for n in names:
            TRAIT[n] = f
        return f
    return d


def one(st, v):
    return [(st, v)]


def native(I, cx, st, args):
    f = cx.f
    h = PATH.get(f['path'])
    if h is None and f.get('trait'):
        h = TRAIT.get(f['trait'])
    if h is None:
        m = re.match(r'core::num::<impl (\w+)>::(\w+)$', f['path'])
        if m:
            return int_method(I, cx, st, args, m.group(1), m.group(2))
        if f['path'].startswith('std::clone::impls::'):
            return one(st, I.val(st, args[0]))
        m = re.match(r'std::fmt::Formatter::<\'a>::debug_', f['path'])
        if m:
            return one(st, ok(UNIT))
        if re.match(r'ring::', f['path']):
            return ring(I, cx, st, args)
        return None
    return h(I, cx, st, args)


INTB = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'usize': (64, 0), 'u128': (128, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'isize': (64, 1)}


def int_method(I, cx, st, args, ty, m):
    bits, sg = INTB[ty]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    a = I.val(st, args[0])
    b = I.val(st, args[1]) if len(args) > 1 else None
    for x in (a, b):
        if x is not None and x.op not in ('int', 'lin') and rng(x) == FULL and m not in ('from_be_bytes', 'from_le_bytes', 'from_str_radix'):
            set_range(x, irange(lo, hi))
    if m == 'to_be_bytes':
        return one(st, be(bits, a))
    if m == 'from_be_bytes':
        if a.op == 'arr':
            v = num(0)
            for x in a.a[0]:
                if rng(x) == FULL:
                    set_range(x, irange(0, 255))
                v = add(scale(v, 256), x)
            # slices of one sequence read as a big-endian number
            w = join_be(a.a[0])
            if w is not None:
                return one(st, frombe(bits, w))
            return one(st, v)
        return one(st, frombe(bits, a))
    if m == 'from_le_bytes' or m == 'to_le_bytes' or m == 'to_ne_bytes' or m == 'from_ne_bytes':
        t = mk('le', bits, a)
        if m.startswith('from'):
            t = mk('fromle', bits, a)
            set_range(t, irange(lo, hi))
        return one(st, t)
    if m == 'saturating_add':
        return one(st, mini(add(a, b), num(hi)))
    if m == 'saturating_sub':
        return one(st, maxi(sub(a, b), num(lo)))
    if m == 'saturating_mul':
        return one(st, mini(mul(a, b), num(hi)))
    if m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        v = add(a, b) if m.endswith('add') else sub(a, b) if m.endswith('sub') else mul(a, b)
        return one(st, wrap(bits, v)) if not sg else None
    if m in ('checked_add', 'checked_sub', 'checked_mul'):
        v = add(a, b) if m.endswith('add') else sub(a, b) if m.endswith('sub') else mul(a, b)
        okc = band(le(num(lo), v), le(v, num(hi)))
        return [(s, some(v) if t else none()) for s, t in part(st, okc)]
    if m in ('checked_div', 'checked_rem'):
        return None
    if m in ('overflowing_add', 'overflowing_sub'):
        v = add(a, b) if m.endswith('add') else sub(a, b)
        return one(st, tup(wrap(bits, v), notb(band(le(num(lo), v), le(v, num(hi))))))
    if m in ('to_ascii_uppercase', 'to_ascii_lowercase'):
        r = irange(97, 122) if m.endswith('upper' + 'case') else irange(65, 90)
        d = -32 if m.endswith('uppercase') else 32
        out = []
        for s, t in part(st, inset(a, r)):
            out.append((s, add(a, num(d)) if t else a))
        return out
    if m in ('is_ascii_digit', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_alphabetic', 'is_ascii_graphic', 'is_ascii_control',
             'is_ascii', 'is_ascii_alphanumeric', 'is_ascii_hexdigit', 'is_ascii_whitespace', 'is_ascii_punctuation'):
        return one(st, inset(a, ASCII[m]))
    if m in ('min', 'max'):
        return one(st, mini(a, b) if m == 'min' else maxi(a, b))
    if m == 'pow' and is_num(a) and is_num(b):
        return one(st, num(a.a[0] ** b.a[0]))
    if m == 'is_power_of_two':
        return None
    if sg and (m.startswith('rotate') or m in ('swap_bytes', 'reverse_bits', 'to_be', 'from_be')):
        return None
    if m in ('rotate_left', 'rotate_right') and is_num(a) and is_num(b):
        k = b.a[0] % bits if m == 'rotate_left' else -b.a[0] % bits
        return one(st, num((a.a[0] << k | a.a[0] >> (bits - k)) & hi if k else a.a[0]))
    if m == 'rotate_left' or m == 'rotate_right' or m in ('leading_zeros', 'trailing_zeros', 'count_ones', 'swap_bytes', 'reverse_bits', 'to_be', 'from_be'):
        t = mk('intfn', m, bits, *([a] + ([b] if b is not None else [])))
        set_range(t, irange(0, hi))
        return one(st, t)
    if m == 'abs_diff':
        return None
    if m == 'div_ceil' and is_num(b) and b.a[0] > 0:
        return one(st, div(add(a, num(b.a[0] - 1)), b.a[0]))
    return None


ASCII = {
    'is_ascii_digit': irange(48, 57), 'is_ascii_uppercase': irange(65, 90), 'is_ascii_lowercase': irange(97, 122),
    'is_ascii_alphabetic': iunion(irange(65, 90), irange(97, 122)), 'is_ascii_graphic': irange(33, 126),
    'is_ascii_control': iunion(irange(0, 31), iset(127)), 'is_ascii': irange(0, 127),
    'is_ascii_alphanumeric': iunion(irange(48, 57), iunion(irange(65, 90), irange(97, 122))),
    'is_ascii_hexdigit': iunion(irange(48, 57), iunion(irange(65, 70), irange(97, 102))),
    'is_ascii_whitespace': iunion(irange(9, 10), iunion(irange(12, 13), iset(32))),
    'is_ascii_punctuation': iunion(iunion(irange(33, 47), irange(58, 64)), iunion(irange(91, 96), irange(123, 126))),
    'is_control': iunion(irange(0, 31), irange(127, 159)),
}


def join_be(items):
    """[x[i], x[i+1], ..] -> x[i..i+n]"""
    if not items or items[0].op != 'idx':
        return None
    S, i = items[0].a
    for k, x in enumerate(items):
        if x.op != 'idx' or x.a[0] is not S or x.a[1] is not add(i, num(k)):
            return None
    return slice_(S, i, add(i, num(len(items))))


# identities ---------------------------------------------------------------
@P('std::future::IntoFuture::into_future', 'std::pin::Pin::<Ptr>::new_unchecked', 'std::hint::must_use',
   'std::string::String::as_bytes', 'std::string::String::as_str', 'core::str::<impl str>::as_bytes', 'std::string::String::into_bytes',
   'std::vec::Vec::<T, A>::as_slice', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'std::str::<impl str>::to_owned',
   'std::pin::Pin::<&\'a mut T>::get_mut', 'std::boxed::Box::<T>::new', 'std::pin::Pin::<Ptr>::new', 'std::vec::Vec::<T, A>::into_boxed_slice',
   'core::str::<impl str>::as_str', 'std::string::String::into_boxed_str', 'std::boxed::Box::<T>::pin', 'std::string::String::from_utf8_lossy',
   'std::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked', 'std::slice::<impl [T]>::to_vec_in')
def ident(I, cx, st, args):
    a = args[0]
    if cx.f['path'] in ('std::slice::<impl [T]>::to_vec', 'std::str::<impl str>::to_owned'):
        a = I.val(st, a)
    return one(st, a)


@TR('std::future::IntoFuture::into_future', 'std::borrow::BorrowMut::borrow_mut', 'std::slice::<impl [T]>::to_vec_in::ConvertVec::to_vec')
def ident_t(I, cx, st, args):
    return one(st, args[0])


@TR('std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut')
def deref_mut(I, cx, st, args):
    return one(st, args[0])


@TR('std::ops::Deref::deref', 'std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::borrow::Borrow::borrow',
    'std::convert::AsRef::as_ref', 'std::string::ToString::to_string')
def identv(I, cx, st, args):
    v = I.val(st, args[0])
    if cx.f['trait'] == 'std::string::ToString::to_string':
        T_ = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {'k': '?'}
        a = mk('agg', 'fmtarg', 0, (v, mk('k', 'display'), mk('ty', I.P.deref_ty(cx.argtys[0]) if cx.argtys else None)))
        return one(st, fmt_arg(I, st, a, None, None, None))
    return one(st, v)


@TR('std::convert::From::from', 'std::convert::Into::into', 'std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def convert(I, cx, st, args):
    v = I.val(st, args[0])
    ga = cx.f.get('ga') or []
    tr = cx.f['trait'].rsplit('::', 1)[-1]
    dt = I.P.types[cx.destty] if cx.destty is not None else None
    at = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else None
    if dt and dt['k'] == 'int' and at and at['k'] in ('int', 'char', 'bool'):
        I.note_int(v, at)
        return one(st, v)
    if tr in ('try_from', 'try_into'):
        # integer narrowing, or slice to array
        if at and at['k'] == 'int' and dt and dt['k'] == 'enum':
            pt = I.P.types[dt['a'][0]] if dt.get('a') else None
            if pt and pt['k'] == 'int':
                b = pt['b']
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if pt['s'] else (0, (1 << b) - 1)
                I.note_int(v, at)
                return [(s, ok(v) if t else err(mk('zst', 'TryFromIntError'))) for s, t in part(st, band(le(num(lo), v), le(v, num(hi))))]
        if dt and dt['k'] == 'enum':
            pt = I.P.types[I.P.deref_ty(dt['a'][0])] if dt.get('a') else None
            if pt and pt['k'] == 'array':
                n = pt.get('len', pt.get('n'))
                if isinstance(n, int):
                    return [(s, ok(v) if t else err(mk('zst', 'TryFromSliceError'))) for s, t in part(st, eqi(seqlen(v), num(n)))]
        return None
    return one(st, v)


# PartialEq / Ord of library types
@TR('std::cmp::PartialEq::eq')
def peq(I, cx, st, args):
    return one(st, gen_eq(I, st, args[0], args[1], cx.argtys[0] if cx.argtys else None))


@TR('std::cmp::PartialEq::ne')
def pne(I, cx, st, args):
    return one(st, notb(gen_eq(I, st, args[0], args[1], cx.argtys[0] if cx.argtys else None)))


@TR('std::cmp::PartialOrd::lt')
def plt(I, cx, st, args):
    return one(st, ord_lt(I, cx, st, args[0], args[1]))


@TR('std::cmp::PartialOrd::gt')
def pgt(I, cx, st, args):
    return one(st, ord_lt(I, cx, st, args[1], args[0]))


@TR('std::cmp::PartialOrd::le')
def ple(I, cx, st, args):
    return one(st, notb(ord_lt(I, cx, st, args[1], args[0])))


@TR('std::cmp::PartialOrd::ge')
def pge(I, cx, st, args):
    return one(st, notb(ord_lt(I, cx, st, args[0], args[1])))


def is_int_ty(I, ty):
    return ty is not None and I.P.types[I.P.deref_ty(ty)]['k'] in ('int', 'char', 'bool')


def ord_lt(I, cx, st, a, b):
    a, b = I.val(st, a), I.val(st, b)
    return lt(a, b) if is_int_ty(I, cx.argtys[0] if cx.argtys else None) else lexlt(a, b)


@TR('std::cmp::Ord::cmp', 'core::slice::cmp::SliceOrd::compare')
def pcmp(I, cx, st, args):
    a, b = I.val(st, args[0]), I.val(st, args[1])
    return cmp_result(I, st, 'int' if is_int_ty(I, cx.argtys[0] if cx.argtys else None) else 'lex', a, b)


@TR('std::cmp::PartialOrd::partial_cmp')
def ppcmp(I, cx, st, args):
    return [(s, some(v)) for s, v in pcmp(I, cx, st, args)]


# panics
@P('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed', 'std::option::expect_failed', 'std::option::unwrap_failed',
   'std::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::panic_display', 'core::panicking::panic_explicit',
   'core::panicking::unreachable_display', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed',
   'core::result::unwrap_failed', 'core::panicking::panic_const::panic_const_div_by_zero', 'std::result::unwrap_failed',
   'core::panicking::assert_failed_inner', 'std::process::abort', 'core::panicking::panic_nounwind', 'std::rt::panic_fmt')
def panic(I, cx, st, args):
    msg = None
    if args:
        m = I.val(st, args[0])
        msg = m
    cx.ev('panic', cx.f['path'].rsplit('::', 1)[-1], (msg,) if msg is not None else (), st)
    return []


# slices and vectors ---------------------------------------------------------
@P('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'std::collections::VecDeque::<T, A>::len', 'std::string::String::len', 'core::str::<impl str>::len')
def length(I, cx, st, args):
    return one(st, seqlen(I.val(st, args[0])))


@P('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty', 'std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def is_empty(I, cx, st, args):
    return one(st, seq_empty(I, cx, st, I.val(st, args[0])))


def seq_empty(I, cx, st, S):
    U = underlying(S)
    if U.op == 'comp':
        conj = frozenset(d for d, v in U.a[1])
        if not conj:
            return TRUE
        return notb(mk('exists', U.a[0], conj))
    return eqi(seqlen(U), num(0))


@P('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::with_capacity', 'std::string::String::new',
   'std::vec::Vec::<T, A>::new_in', 'std::vec::Vec::<T, A>::with_capacity_in', 'std::collections::VecDeque::<T>::new',
   'std::collections::VecDeque::<T>::with_capacity')
def newvec(I, cx, st, args):
    return one(st, NIL)


@TR('std::default::Default::default')
def default(I, cx, st, args):
    T_ = I.P.types[cx.destty]
    if T_['k'] == 'int' or T_['k'] == 'bool':
        return one(st, num(0))
    if T_.get('p', '').endswith(('vec::Vec', 'string::String')):
        return one(st, NIL)
    if T_.get('p') == OPT:
        return one(st, none())
    return None


@P('std::vec::from_elem')
def from_elem(I, cx, st, args):
    x, n = I.val(st, args[0]), I.val(st, args[1])
    if is_num(n) and n.a[0] == 0:
        return one(st, NIL)
    return one(st, mk('rep', x, n))


@P('std::boxed::Box::<T>::new_uninit')
def new_uninit(I, cx, st, args):
    return one(st, mk('boxuninit', cx.site))


@P('std::boxed::box_assume_init_into_vec_unsafe')
def bvec(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op == 'boxuninit':
        return one(st, st.store.get((v.a[0], 'box'), mk('unk', 'box')))
    return one(st, v)


def is_u8(I, ty):
    if ty is None:
        return False
    T_ = I.P.types[ty]
    return T_['k'] == 'int' and T_['b'] == 8 and not T_['s']


def note_streams(I, cx, st, x):
    """Remember what the iterators stored inside x yield, for the rules to read."""
    for y in subterms(x) if x.op == 'agg' else ():
        if y.op == 'stream' and y not in I.streams:
            n = len(cx.fr.events)
            I.streams[y] = comp_of(I, cx, st, y, 'stored')
            del cx.fr.events[n:]


@P('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back')
def vpush(I, cx, st, args):
    r, x = args
    v = I.val(st, r)
    ga = cx.f.get('ga') or []
    u8 = bool(ga) and is_u8(I, ga[0])
    st = st.copy()
    note_streams(I, cx, st, x)
    if u8:
        x = I.val(st, x)
        if x.op not in ('int', 'lin') and rng(x) == FULL:
            set_range(x, irange(0, 255))
        I.store_ref(st, r, [], push(v, x))
    else:
        I.store_ref(st, r, [], push(v, x, mk('ps', cx.site)))
        cx.ev('push', refname(r), (x,), st, data=(r, v, ga[0] if ga else None))
    return one(st, UNIT)


def refname(r):
    return str(r.a[0][1]) if r.op == 'ref' else '?'


@P('std::vec::Vec::<T, A>::extend_from_slice', 'std::string::String::push_str', 'std::vec::Vec::<T, A>::append')
def extend_slice(I, cx, st, args):
    r, x = args[0], I.val(st, args[1])
    v = I.val(st, r)
    st = st.copy()
    ga = cx.f.get('ga') or []
    u8 = cx.f['path'].startswith('std::string') or bool(ga) and is_u8(I, ga[0])
    if not u8:
        cx.ev('extend', refname(r), (x,), st, data=(r, v, ga[0] if ga else None))
    I.store_ref(st, r, [], ext(v, x) if u8 else rext(v, x))
    if cx.f['path'].endswith('append') and args[1].op == 'ref':
        I.store_ref(st, args[1], [], NIL)
    return one(st, UNIT)


def rext(v, x):
    """concatenation of record sequences"""
    if v.op == 'bytes' and not v.a[0]:
        return x
    if x.op == 'bytes' and not x.a[0]:
        return v
    return mk('ext', v, x)


@TR('std::ops::AddAssign::add_assign')
def add_assign(I, cx, st, args):
    v, x = I.val(st, args[0]), I.val(st, args[1])
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {'k': '?'}
    if T_['k'] == 'int':
        return None
    st = st.copy()
    I.store_ref(st, args[0], [], ext(v, x))
    return one(st, UNIT)


@TR('std::ops::Add::add')
def sadd(I, cx, st, args):
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {'k': '?'}
    if T_.get('p', '').endswith('String'):
        return one(st, ext(I.val(st, args[0]), I.val(st, args[1])))
    return None


@P('std::string::String::push')
def strpush(I, cx, st, args):
    v, x = I.val(st, args[0]), I.val(st, args[1])
    st = st.copy()
    if is_num(x):
        n = ext(v, byts(chr(x.a[0]).encode()))
    elif rng(x).hi() is not None and rng(x).hi() < 128 or max((F.cset(c, x).hi() or 999) for c in st.facts) < 128:
        n = ext(v, unit(x))
    else:
        n = ext(v, mk('utf8', x))
    I.store_ref(st, args[0], [], n)
    return one(st, UNIT)


@P('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_back')
def vpop(I, cx, st, args):
    v = I.val(st, args[0])
    out = []
    if v.op == 'push':
        s = st.copy()
        I.store_ref(s, args[0], [], v.a[0])
        cx.ev('pop', refname(args[0]), (v.a[1],), s, data=(v,))
        return one(s, some(v.a[1]))
    L = seqlen(v)
    for s, e in part(st, seq_empty(I, cx, st, v)):
        s = s.copy()
        if e:
            out.append((s, none()))
        else:
            x = idx(v, sub(L, num(1)))
            ga = cx.f.get('ga') or []
            I.note(x, ga[0] if ga else None)
            I.store_ref(s, args[0], [], slice_(v, num(0), sub(L, num(1))))
            cx.ev('pop', refname(args[0]), (x,), s, data=(v,))
            out.append((s, some(x)))
    return out


@P('std::string::String::pop')
def strpop(I, cx, st, args):
    v = I.val(st, args[0])
    h, q = (NIL, v) if v.op == 'bytes' else v.a[:2] if v.op == 'ext' else (NIL, NIL)
    if q.op != 'bytes' or not q.a[0] or q.a[0][-1] >= 128:
        return None
    st = st.copy()
    I.store_ref(st, args[0], [], ext(h, byts(q.a[0][:-1])))
    return one(st, some(num(q.a[0][-1])))


@P('std::vec::Vec::<T, A>::clear', 'std::collections::VecDeque::<T, A>::clear', 'std::string::String::clear')
def vclear(I, cx, st, args):
    st = st.copy()
    I.store_ref(st, args[0], [], NIL)
    return one(st, UNIT)


@P('std::vec::Vec::<T, A>::truncate', 'std::collections::VecDeque::<T, A>::truncate', 'std::string::String::truncate')
def vtrunc(I, cx, st, args):
    v, n = I.val(st, args[0]), I.val(st, args[1])
    out = []
    for s, t in part(st, le(seqlen(v), n)):
        s = s.copy()
        if not t:
            I.store_ref(s, args[0], [], slice_(v, num(0), n))
        out.append((s, UNIT))
    return out


@P('std::vec::Vec::<T, A>::resize')
def vresize(I, cx, st, args):
    v, n, x = [I.val(st, a) for a in args]
    out = []
    L = seqlen(v)
    for s, t in part(st, le(L, n)):
        s = s.copy()
        I.store_ref(s, args[0], [], ext(v, mk('rep', x, sub(n, L))) if t and not (is_num(sub(n, L)) and sub(n, L).a[0] == 0) else v if t else slice_(v, num(0), n))
        out.append((s, UNIT))
    return out


@P('std::vec::Vec::<T, A>::split_off')
def vsplit_off(I, cx, st, args):
    v, n = I.val(st, args[0]), I.val(st, args[1])
    L = seqlen(v)
    s = oblig(I, cx, st, 'split_off', le(n, L))
    if s is None:
        return []
    s = s.copy()
    I.store_ref(s, args[0], [], slice_(v, num(0), n))
    return one(s, slice_(v, n, L))


@P('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vremove(I, cx, st, args):
    v, i = I.val(st, args[0]), I.val(st, args[1])
    s = oblig(I, cx, st, 'bounds', lt(i, seqlen(v)))
    if s is None:
        return []
    s = s.copy()
    x = idx(v, i)
    ga = cx.f.get('ga') or []
    I.note(x, ga[0] if ga else None)
    n = mk('removed', v, i, cx.f['path'].rsplit('::', 1)[-1])
    I.store_ref(s, args[0], [], n)
    cx.ev('pop', refname(args[0]), (x,), s, data=(v,))
    return one(s, x)


@P('std::vec::Vec::<T, A>::insert', 'std::collections::VecDeque::<T, A>::insert')
def vinsert(I, cx, st, args):
    v, i, x = I.val(st, args[0]), I.val(st, args[1]), args[2]
    s = oblig(I, cx, st, 'bounds', le(i, seqlen(v)))
    if s is None:
        return []
    s = s.copy()
    ga = cx.f.get('ga') or []
    if ga and is_u8(I, ga[0]):
        I.store_ref(s, args[0], [], ext(ext(slice_(v, num(0), i), unit(I.val(s, x))), slice_(v, i, seqlen(v))))
    else:
        I.store_ref(s, args[0], [], push(v, x, mk('ps', cx.site) if i is seqlen(v) else mk('ps', cx.site, mk('at', i))))
        cx.ev('push', refname(args[0]), (x,), s, data=(args[0], v, ga[0] if ga else None))
    return one(s, UNIT)


@P('std::vec::Vec::<T, A>::drain', 'std::collections::VecDeque::<T, A>::drain')
def vdrain(I, cx, st, args):
    v = I.val(st, args[0])
    L = seqlen(v)
    rb = range_bounds(I, st, args[1], L)
    if rb is None:
        return None
    a, b = rb
    s = range_ok(I, cx, st, a, b, L)
    if s is None:
        return []
    s = s.copy()
    rest = rext(slice_(v, num(0), a), slice_(v, b, L))
    I.store_ref(s, args[0], [], rest)
    ga = cx.f.get('ga') or []
    return one(s, stream(seqit(slice_(v, a, b), ga[0] if ga else None)))


@P('std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::dedup_by_key', 'std::vec::Vec::<T, A>::dedup_by')
def vdedup(I, cx, st, args):
    v = I.val(st, args[0])
    kind = cx.f['path'].rsplit('::', 1)[-1]
    key = mk('k', kind)
    if len(args) > 1:
        ga = cx.f.get('ga') or []
        bs = [mk('sbv', i) for i in range(2 if kind == 'dedup_by' else 1)]
        for b in bs:
            I.note(b, ga[0] if ga else None)
        from engine import State
        st0 = State(dict(st.store), TOP)
        rs = cx.closure(st0, args[1], bs, 'same')
        key = mk('byrel' if len(bs) == 2 else 'bykey', frozenset((frozenset(d), I.val(s, x)) for s, x in rs for d in deltas(I, st0, s)))
    st = st.copy()
    I.store_ref(st, args[0], [], mk('dedup', v, key) if v is not NIL else NIL)
    return one(st, UNIT)


@P('std::vec::Vec::<T, A>::retain')
def vretain(I, cx, st, args):
    v = I.val(st, args[0])
    ga = cx.f.get('ga') or []
    it = stream(seqit(v, ga[0] if ga else None), (mk('op', 'filter', args[1]),))
    n = comp_of(I, cx, st, it, 'retain')
    st = st.copy()
    I.store_ref(st, args[0], [], n)
    return one(st, UNIT)


@P('core::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort')
def sort_plain(I, cx, st, args):
    v = I.val(st, args[0])
    st = st.copy()
    ga = cx.f.get('ga') or []
    I.store_ref(st, args[0], [], mk('sorted', v, mk('ordof', I.P.types[I.P.deref_ty(ga[0])].get('n') if ga else None)))
    return one(st, UNIT)


@P('std::slice::<impl [T]>::sort_by_cached_key', 'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by_key')
def sort_key(I, cx, st, args):
    v = I.val(st, args[0])
    ga = cx.f.get('ga') or []
    bv = mk('sbv', 0)
    I.note(bv, ga[0] if ga else None)
    rs = cx.closure(st, args[1], [bv], 'key')
    st = st.copy()
    k = rs[0][1] if len(rs) == 1 else mk('case?', *[I.val(s, x) for s, x in rs])
    I.store_ref(st, args[0], [], mk('sorted', v, mk('bykey', k)))
    return one(st, UNIT)


@P('core::slice::<impl [T]>::sort_unstable_by', 'std::slice::<impl [T]>::sort_by')
def sort_by(I, cx, st, args):
    v = I.val(st, args[0])
    ga = cx.f.get('ga') or []
    a, b = mk('sbv', 0), mk('sbv', 1)
    I.note(a, ga[0] if ga else None)
    I.note(b, ga[0] if ga else None)
    from engine import State
    st0 = State(dict(st.store), TOP)
    rs = cx.closure(st0, args[1], [a, b], 'cmp')
    key = frozenset((frozenset(d), x) for s, x in rs for d in deltas(I, st0, s))
    st = st.copy()
    I.store_ref(st, args[0], [], mk('sorted', v, mk('bycmp', key)))
    return one(st, UNIT)


@P('core::slice::<impl [T]>::reverse')
def reverse(I, cx, st, args):
    v = I.val(st, args[0])
    st = st.copy()
    I.store_ref(st, args[0], [], mk('rev', v))
    return one(st, UNIT)


@P('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
def sget(I, cx, st, args):
    S = I.val(st, args[0])
    L = seqlen(S)
    rb = range_bounds(I, st, args[1], L)
    if rb is not None:
        a, b = rb
        c = band(le(a, b), le(b, L))
        if cx.f['path'].startswith('core::str'):
            for x in (a, b):
                if not (is_num(x) and x.a[0] == 0) and x is not L:
                    bd = mk('charbound', S, x)
                    set_range(bd, BOOL)
                    c = band(c, bd)
        return [(s, some(slice_(S, a, b)) if t else none()) for s, t in part(st, c)]
    i = I.val(st, args[1])
    out = []
    for s, t in part(st, lt(i, L)):
        if t:
            v = idx(S, i)
            I.note(v, (cx.f.get('ga') or [None])[0])
            out.append((s, some(v)))
        else:
            out.append((s, none()))
    return out


@P('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first')
def slast(I, cx, st, args):
    S = I.val(st, args[0])
    L = seqlen(S)
    lastp = cx.f['path'].endswith('last')
    ga = cx.f.get('ga') or []
    out = []
    if S.op == 'push' and lastp:
        return one(st, some(S.a[1]))
    if underlying(S).op == 'comp':
        if True:
            hits, miss = find_like(I, cx, st, stream(seqit(S, ga[0] if ga else None)), lambda s, x: [(s, TRUE)], 'first')
            return [(s, some(x)) for s, x, _ in hits] + [(s, none()) for s in miss]
    for s, t in part(st, eqi(L, num(0))):
        if t:
            out.append((s, none()))
        else:
            v = idx(S, sub(L, num(1)) if lastp else num(0))
            I.note(v, ga[0] if ga else None)
            out.append((s, some(v)))
    return out


@P('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def slast_mut(I, cx, st, args):
    S = I.val(st, args[0])
    L = seqlen(S)
    lastp = 'last' in cx.f['path'].rsplit('::', 1)[-1]
    r = args[0]
    out = []
    for s, t in part(st, eqi(L, num(0))):
        if t:
            out.append((s, none()))
        else:
            out.append((s, some(mk('ref', r.a[0], tuple(r.a[1]) + (('I', sub(L, num(1)) if lastp else num(0)),)))))
    return out


@P('core::slice::<impl [T]>::split_at')
def split_at(I, cx, st, args):
    S, i = I.val(st, args[0]), I.val(st, args[1])
    s = oblig(I, cx, st, 'split_at', le(i, seqlen(S)))
    if s is None:
        return []
    return one(s, tup(slice_(S, num(0), i), slice_(S, i, seqlen(S))))


@P('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def split_first(I, cx, st, args):
    S = I.val(st, args[0])
    L = seqlen(S)
    out = []
    for s, t in part(st, eqi(L, num(0))):
        if t:
            out.append((s, none()))
        elif cx.f['path'].endswith('first'):
            v = idx(S, num(0))
            I.note(v, (cx.f.get('ga') or [None])[0])
            out.append((s, some(tup(v, slice_(S, num(1), L)))))
        else:
            v = idx(S, sub(L, num(1)))
            I.note(v, (cx.f.get('ga') or [None])[0])
            out.append((s, some(tup(v, slice_(S, num(0), sub(L, num(1)))))))
    return out


@P('core::slice::<impl [T]>::contains', 'std::collections::VecDeque::<T, A>::contains')
def scontains(I, cx, st, args):
    S, x = I.val(st, args[0]), I.val(st, args[1])
    ga = cx.f.get('ga') or []
    ety = ga[0] if ga else None
    if S.op in ('arr', 'bytes') and len(S.a[0]) <= 16:
        items = S.a[0] if S.op == 'arr' else [num(c) for c in S.a[0]]
        r = FALSE
        if ety is not None and is_int_ty(I, ety):
            I.note_int(x, I.P.types[ety])
        if all(is_num(i) for i in items):
            return one(st, inset(x, iset(*[i.a[0] for i in items])) if not is_num(x) else num(any(i.a[0] == x.a[0] for i in items)))
        for it in items:
            r = bor(r, gen_eq(I, st, it, x, ety))
        return one(st, r)
    hits, miss = find_like(I, cx, st, stream(seqit(S, ety)), lambda s, y: [(s, gen_eq(I, s, y, x, ety))], 'contains')
    return [(s, TRUE) for s, _, _ in hits] + [(s, FALSE) for s in miss]


@P('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from(I, cx, st, args):
    d, x = I.val(st, args[0]), I.val(st, args[1])
    s = oblig(I, cx, st, 'copy_from_slice', eqi(seqlen(d), seqlen(x)))
    if s is None:
        return []
    s = s.copy()
    if args[0].op == 'ref':
        I.store_ref(s, args[0], [], x)
    return one(s, UNIT)


@P('core::slice::<impl [T]>::fill')
def fill(I, cx, st, args):
    d, x = I.val(st, args[0]), I.val(st, args[1])
    s = st.copy()
    I.store_ref(s, args[0], [], mk('rep', x, seqlen(d)))
    return one(s, UNIT)


@P('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def sl_starts(I, cx, st, args):
    f = startsw if 'starts' in cx.f['path'] else endsw
    return one(st, f(I.val(st, args[0]), I.val(st, args[1])))


@P('std::slice::<impl [T]>::concat', 'std::slice::<impl [T]>::join')
def sl_concat(I, cx, st, args):
    S = I.val(st, args[0])
    if S.op == 'arr' and cx.f['path'].endswith('concat'):
        r = NIL
        for x in S.a[0]:
            r = ext(r, I.val(st, x))
        return one(st, r)
    return one(st, mk('joined', S, I.val(st, args[1]) if len(args) > 1 else NIL))


@TR('std::ops::Index::index')
def index(I, cx, st, args):
    return do_index(I, cx, st, args)


@TR('std::ops::IndexMut::index_mut')
def index_mut(I, cx, st, args):
    return do_index(I, cx, st, args, True)


@P('core::slice::<impl [T]>::get_mut')
def get_mut(I, cx, st, args):
    S = I.val(st, args[0])
    L = seqlen(S)
    r = args[0]
    rb = range_bounds(I, st, args[1], L)
    if rb is not None:
        return None
    i = I.val(st, args[1])
    return [(s, some(mk('ref', r.a[0], tuple(r.a[1]) + (('I', i),))) if t else none()) for s, t in part(st, lt(i, L))]


# iterators ---------------------------------------------------------------------
@P('core::slice::<impl [T]>::iter')
def siter(I, cx, st, args):
    return one(st, stream(seqit(I.val(st, args[0]), (cx.f.get('ga') or [None])[0])))


def itermut(I, st, ref):
    n = seqlen(I.val(st, ref))
    return mk('seqitmut', ref, n) if is_num(n) and n.a[0] <= 16 else mk('seqitmut', ref)


@P('core::slice::<impl [T]>::iter_mut')
def siter_mut(I, cx, st, args):
    if args[0].op == 'ref':
        return one(st, stream(itermut(I, st, args[0])))
    return None


@P('core::str::<impl str>::bytes')
def sbytes(I, cx, st, args):
    u8 = next((i for i, t in enumerate(I.P.types) if t['k'] == 'int' and t['b'] == 8 and not t['s']), None)
    return one(st, stream(seqit(I.val(st, args[0]), u8)))


@P('core::str::<impl str>::chars')
def schars(I, cx, st, args):
    ch = next((i for i, t in enumerate(I.P.types) if t['k'] == 'char'), None)
    S = I.val(st, args[0])
    if S.op == 'bytes' and all(c < 128 for c in S.a[0]):
        return one(st, stream(seqit(S, ch)))
    return one(st, stream(seqit(mk('chars', S), ch)))


@P('core::str::<impl str>::char_indices')
def schar_indices(I, cx, st, args):
    return None


@P('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact')
def schunks(I, cx, st, args):
    n = I.val(st, args[1])
    s = oblig(I, cx, st, 'chunk_size', le(num(1), n))
    if s is None:
        return []
    if cx.f['path'].endswith('exact'):
        return one(s, mk('unk', 'chunks_exact', I.val(st, args[0]), n))
    return one(s, stream(mk('chunks', I.val(st, args[0]), n, (cx.f.get('ga') or [None])[0])))


@P('core::slice::<impl [T]>::windows')
def swindows(I, cx, st, args):
    n = I.val(st, args[1])
    s = oblig(I, cx, st, 'window_size', le(num(1), n))
    if s is None:
        return []
    return one(s, stream(mk('windows', I.val(st, args[0]), n, (cx.f.get('ga') or [None])[0])))


@P('core::str::<impl str>::split', 'core::str::<impl str>::rsplit', 'core::str::<impl str>::splitn', 'core::str::<impl str>::split_terminator',
   'core::str::<impl str>::lines', 'core::str::<impl str>::split_whitespace', 'core::str::<impl str>::rsplitn', 'core::slice::<impl [T]>::split')
def ssplit(I, cx, st, args):
    k = cx.f['path'].rsplit('::', 1)[-1]
    s = I.val(st, args[0])
    rest = [I.val(st, a) for a in args[1:]]
    rest = [byts(chr(x.a[0]).encode()) if is_num(x) and k in ('split', 'rsplit') else x for x in rest]
    if k in ('splitn', 'rsplitn') and is_num(rest[-1]):
        rest[-1] = byts(chr(rest[-1].a[0]).encode())
    return one(st, stream(mk('split', k, s, *rest)))


@TR('std::iter::IntoIterator::into_iter')
def into_iter(I, cx, st, args):
    a = args[0]
    v = I.val(st, a)
    at = I.P.types[cx.argtys[0]] if cx.argtys else {'k': '?'}
    if v.op == 'stream':
        return one(st, a if a.op == 'ref' else v)
    t = to_stream(I, st, v)
    if t is not None:
        return one(st, t)
    if at['k'] == 'ref' and at.get('mut') and a.op == 'ref':
        base = I.P.types[at['e']]
        if base.get('p', '').endswith('Vec') or base['k'] in ('array', 'slice'):
            return one(st, stream(itermut(I, st, a)))
        return one(st, a)
    ety = I.elem_ty(cx.argtys[0]) if cx.argtys else None
    tt = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {}
    if tt.get('p') == OPT:
        if v.op == 'agg':
            return one(st, stream(seqit(arr([v.a[2][0]]) if v.a[1] else NIL, ety)))
        return None
    if tt.get('k') in ('array', 'slice') or tt.get('p', '').endswith(('Vec',)):
        return one(st, stream(seqit(v, ety)))
    if tt.get('local'):
        return one(st, v)
    return one(st, stream(mk('opaqueit', v))) if v.op not in ('agg',) else one(st, v)


def adapt(kind):
    def h(I, cx, st, args):
        it = as_it(I, st, args[0])
        if it is None or it.op != 'stream':
            return None
        return one(st, mk('stream', it.a[0], it.a[1] + (mk('op', kind, *args[1:]),), it.a[2]))
    return h


for _k in ('filter', 'map', 'filter_map', 'enumerate', 'take_while', 'skip_while', 'copied', 'cloned', 'inspect', 'peekable', 'fuse', 'skip', 'take',
           'step_by', 'map_while'):
    PATH['std::iter::Iterator::' + _k] = adapt(_k)


@P('std::iter::Iterator::rev')
def irev(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    return one(st, mk('stream', it.a[0], it.a[1] + (mk('op', 'rev'),), it.a[2]))


@P('std::iter::Iterator::by_ref')
def iby_ref(I, cx, st, args):
    return one(st, args[0])


@P('std::iter::Iterator::chain')
def ichain(I, cx, st, args):
    a = as_it(I, st, args[0])
    b = as_it(I, st, args[1])
    if b is None:
        r = into_iter(I, _sub(cx, 1), st, [args[1]])
        b = r[0][1] if r else None
    if a is None or b is None or b.op != 'stream':
        return None
    return one(st, stream(mk('chain', a, b)))


def _sub(cx, i):
    from engine import Cx
    return Cx(cx.I, cx.fr, cx.b, cx.site, cx.span, cx.f, cx.argtys[i:], cx.destty)


@P('std::iter::Iterator::zip')
def izip(I, cx, st, args):
    a = as_it(I, st, args[0])
    r = into_iter(I, _sub(cx, 1), st, [args[1]])
    b = r[0][1] if r else None
    if a is None or b is None or b.op != 'stream':
        return None
    return one(st, stream(mk('zip', a, b)))


@P('std::iter::once')
def ionce(I, cx, st, args):
    return one(st, stream(seqit(arr([args[0]]), (cx.f.get('ga') or [None])[0])))


@P('std::iter::empty')
def iempty(I, cx, st, args):
    return one(st, stream(seqit(NIL, None)))


@P('std::iter::repeat')
def irepeat(I, cx, st, args):
    return one(st, stream(mk('repeat', args[0])))


@TR('std::iter::Iterator::next')
def inext(I, cx, st, args):
    a = args[0]
    if a.op == 'ref':
        v = I.val(st, a)
        if v.op == 'agg':
            # a Range being iterated in place
            t = to_stream(I, st, v)
            if t is None:
                return None
            if v.a[0].rsplit('::', 1)[-1] in ('Range',):
                lo, hi = v.a[2][0], v.a[2][1]
                if is_num(lo) and is_num(hi) and hi.a[0] - lo.a[0] <= 8 or False:
                    out = []
                    for s, c in part(st, lt(lo, hi)):
                        s = s.copy()
                        if c:
                            I.store_ref(s, a, [], mk('agg', v.a[0], 0, (add(lo, num(1)), hi)))
                        out.append((s, some(lo) if c else none()))
                    return out
            s = st.copy()
            I.store_ref(s, a, [], t)
            st = s
        return do_next(I, cx, st, a)
    return None


@TR('std::iter::DoubleEndedIterator::next_back')
def inext_back(I, cx, st, args):
    if args[0].op == 'ref':
        return do_next(I, cx, st, args[0], True)
    return None


@P('std::iter::Peekable::<I>::peek')
def ipeek(I, cx, st, args):
    it = I.val(st, args[0])
    if it.op != 'stream':
        return None
    out = []
    for s, v in next_some(I, cx, st, it, cx.site):
        out.append((s, some(v)))
    out.append((st, none()))
    return out


def pred_of(cx, fv, tag):
    return lambda s, x: cx.closure(s, fv, [x], tag)


def consume(I, st, ref):
    """Mark the stream behind a &mut as consumed."""
    if ref.op == 'ref':
        v = I.val(st, ref)
        if v.op == 'stream':
            st = st.copy()
            I.store_ref(st, ref, [], mk('stream', v.a[0], v.a[1], '*'))
    return st


@TR('std::iter::Iterator::any')
@P('std::iter::Iterator::any')
def iany(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    hits, miss = find_like(I, cx, st, it, pred_of(cx, args[1], 'any'), 'any')
    return [(consume(I, s, args[0]), TRUE) for s, _, _ in hits] + [(consume(I, s, args[0]), FALSE) for s in miss]


@TR('std::iter::Iterator::all')
@P('std::iter::Iterator::all')
def iall(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    p = pred_of(cx, args[1], 'all')

    def neg(s, x):
        return [(s2, notb(I.val(s2, y))) for s2, y in p(s, x)]
    hits, miss = find_like(I, cx, st, it, neg, 'all')
    return [(consume(I, s, args[0]), FALSE) for s, _, _ in hits] + [(consume(I, s, args[0]), TRUE) for s in miss]


@TR('std::iter::Iterator::find')
@P('std::iter::Iterator::find')
def ifind(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    hits, miss = find_like(I, cx, st, it, pred_of(cx, args[1], 'find'), 'find')
    return [(consume(I, s, args[0]), some(x)) for s, x, _ in hits] + [(consume(I, s, args[0]), none()) for s in miss]


@TR('std::iter::Iterator::find_map')
@P('std::iter::Iterator::find_map')
def ifind_map(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    it2 = mk('stream', it.a[0], it.a[1] + (mk('op', 'filter_map', args[1]),), it.a[2])
    hits, miss = find_like(I, cx, st, it2, lambda s, x: [(s, TRUE)], 'findmap')
    return [(consume(I, s, args[0]), some(x)) for s, x, _ in hits] + [(consume(I, s, args[0]), none()) for s in miss]


@TR('std::iter::Iterator::position', 'std::iter::Iterator::rposition')
@P('std::iter::Iterator::position', 'std::iter::Iterator::rposition')
def iposition(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    r = (cx.f.get('trait') or cx.f['path']).endswith('rposition')
    hits, miss = find_like(I, cx, st, it, pred_of(cx, args[1], 'pos'), 'pos')
    out = []
    for s, x, i in hits:
        base = it.a[0]
        if base.op == 'seqit' and not it.a[1] and i.op == 'elem' and r:
            # no later element satisfies the predicate
            S = base.a[0]
            tail = stream(seqit(slice_(S, add(i, num(1)), seqlen(S)), base.a[1]))
            e = existsb(I, cx, st, tail, pred_of(cx, args[1], 'rpos'), 'rpos')
            if not is_num(e):
                s = s.assume(e, iset(0)) or s
        out.append((consume(I, s, args[0]), some(i)))
    return out + [(consume(I, s, args[0]), none()) for s in miss]


@P('std::iter::Iterator::collect')
def icollect(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    dt = I.P.types[cx.destty] if cx.destty is not None else {}
    if dt.get('p', '').endswith(('Vec', 'String', 'Box', 'VecDeque')):
        c = comp_of(I, cx, st, it, 'collect')
        return one(st, c)
    return None


@TR('std::iter::Extend::extend')
def iextend(I, cx, st, args):
    r = args[0]
    v = I.val(st, r)
    a1 = I.val(st, args[1])
    it = a1 if a1.op == 'stream' else None
    if it is None:
        rr = into_iter(I, _sub(cx, 1), st, [args[1]])
        it = rr[0][1] if rr else None
    if it is None or it.op != 'stream':
        return None
    c = comp_of(I, cx, st, it, 'extend')
    st = st.copy()
    cx.ev('extend', refname(r), (c,), st, data=(r, v, None))
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])]
    u8 = T_.get('p', '').endswith('String') or (T_.get('a') and is_u8(I, T_['a'][0]))
    I.store_ref(st, r, [], ext(v, c) if u8 else rext(v, c))
    return one(st, UNIT)


@TR('std::iter::FromIterator::from_iter')
def ifrom_iter(I, cx, st, args):
    return icollect(I, cx, st, args)


@TR('std::iter::Iterator::count')
@P('std::iter::Iterator::count')
def icount(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    if it.a[0].op == 'seqit' and all(o.a[0] in ('map', 'copied', 'cloned', 'rev', 'enumerate') for o in it.a[1]) and underlying(it.a[0].a[0]).op != 'comp':
        return one(st, seqlen(it.a[0].a[0]))
    bvs, res = over_bound(I, cx, st, it.a[0], it.a[1], lambda s, x: [(s, x)], 'count')
    conj = frozenset(clean_delta(d, bvs) for d, _ in res)
    if not conj:
        return one(st, num(0))
    return one(st, mk('count', cbase(it.a[0]), conj))


@TR('std::iter::Iterator::last')
@P('std::iter::Iterator::last')
def ilast(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    base = it.a[0]
    if base.op == 'split' and not it.a[1] and it.a[2] == 0:
        return one(st, some(mk('part', base, mk('lastidx', base))))
    out = [(s, some(v)) for s, v in next_some(I, cx, st, it, cx.site)]
    c = nonempty_cond(it.a[0])
    s = st
    if c is not None and not it.a[1]:
        s = st.assume(c, iset(0))
    if s is not None:
        out.append((s, none()))
    return out


@TR('std::iter::Iterator::nth')
@P('std::iter::Iterator::nth')
def inth(I, cx, st, args):
    it = as_it(I, st, args[0])
    n = I.val(st, args[1])
    if it is None:
        return None
    base = it.a[0]
    if base.op == 'seqit' and not it.a[1] and it.a[2] == 0 and underlying(base.a[0]).op != 'comp':
        S = base.a[0]
        out = []
        for s, c in part(st, lt(n, seqlen(S))):
            if c:
                v = idx(S, n)
                I.note(v, base.a[1])
                out.append((consume(I, s, args[0]), some(v)))
            else:
                out.append((consume(I, s, args[0]), none()))
        return out
    out = [(consume(I, s, args[0]), some(v)) for s, v in next_some(I, cx, st, it, cx.site)]
    return out + [(consume(I, st, args[0]), none())]


@TR('std::iter::Iterator::fold')
@P('std::iter::Iterator::fold')
def ifold(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    s, r = fold_loop(I, cx, st, it, args[1], lambda s, a, x: cx.closure(s, args[2], [a, x], 'fold'), 'fold')
    return one(s, r)


@TR('std::iter::Iterator::for_each')
@P('std::iter::Iterator::for_each')
def ifor_each(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    s, r = fold_loop(I, cx, st, it, UNIT, lambda s, a, x: [(s2, UNIT) for s2, _ in cx.closure(s, args[1], [x], 'each')], 'each')
    return one(s, UNIT)


@P('std::iter::Iterator::sum', 'std::iter::Iterator::product')
def isum(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    k = cx.f['path'].rsplit('::', 1)[-1]
    bits = I.P.types[cx.destty].get('b', 64) if cx.destty is not None else 64
    init = num(0 if k == 'sum' else 1)
    lit = literal(it)

    def body(s, a, x):
        x = I.val(s, x)
        v = add(a, x) if k == 'sum' else mul(a, x)
        cond = le(v, num((1 << bits) - 1))
        s2 = oblig(I, cx, s, 'overflow', cond)
        return [(s2, v)] if s2 is not None else []
    s, r = fold_loop(I, cx, st, it, init, body, k)
    return one(s, r)


@P('std::iter::Iterator::max', 'std::iter::Iterator::min')
@TR('std::iter::Iterator::max', 'std::iter::Iterator::min')
def imax(I, cx, st, args):
    it = as_it(I, st, args[0])
    if it is None:
        return None
    k = (cx.f.get('trait') or cx.f['path']).rsplit('::', 1)[-1]
    c = comp_of(I, cx, st, it, k)
    t = I.opaque(cx.destty and (I.P.types[cx.destty].get('a') or [None])[0], 'agg' + k, c)
    out = []
    for s, e in part(st, seq_empty(I, cx, st, c)):
        out.append((s, none() if e else some(t)))
    return out


# strings -----------------------------------------------------------------------
@P('core::str::<impl str>::ends_with')
def str_ends(I, cx, st, args):
    k, x = pat_seq(I, st, args[1])
    if k == 'fn':
        return None
    return one(st, endsw(I.val(st, args[0]), x))


@P('core::str::<impl str>::starts_with')
def str_starts(I, cx, st, args):
    k, x = pat_seq(I, st, args[1])
    if k == 'fn':
        return None
    return one(st, startsw(I.val(st, args[0]), x))


@P('core::str::<impl str>::contains')
def str_contains(I, cx, st, args):
    c = containsb(I, cx, st, I.val(st, args[0]), args[1])
    return one(st, c) if c is not None else None


@P('core::str::<impl str>::strip_suffix', 'core::str::<impl str>::strip_prefix')
def str_strip(I, cx, st, args):
    s_ = I.val(st, args[0])
    k, x = pat_seq(I, st, args[1])
    if k == 'fn':
        return None
    L, M = seqlen(s_), seqlen(x)
    suf = cx.f['path'].endswith('suffix')
    out = []
    z = mk('inzone', s_, x)
    if suf and st.holds(z):
        # a name at or below x ends with x (contract of the containment check)
        s = st.assume(le(M, L), iset(1))
        return [(s, some(slice_(s_, num(0), sub(L, M))))] if s is not None else []
    for s, t in part(st, endsw(s_, x) if suf else startsw(s_, x)):
        out.append((s, some(slice_(s_, num(0), sub(L, M)) if suf else slice_(s_, M, L)) if t else none()))
    return out


@P('core::str::<impl str>::split_once', 'core::str::<impl str>::rsplit_once')
def str_split_once(I, cx, st, args):
    s_ = I.val(st, args[0])
    k, x = pat_seq(I, st, args[1])
    if k == 'fn':
        return None
    m = cx.f['path'].rsplit('::', 1)[-1]
    if x.op == 'bytes' and len(x.a[0]) == 1:
        c = exists_byte(s_, iset(x.a[0][0]))
    else:
        c = mk('strp', 'contains', s_, x)
    p = mk('posof', m, s_, x)
    out = []
    for s, t in part(st, c):
        if t:
            L = seqlen(s_)
            s2 = s.assume(le(add(p, seqlen(x)), L), iset(1))
            if s2 is not None:
                out.append((s2, some(tup(slice_(s_, num(0), p), slice_(s_, add(p, seqlen(x)), L)))))
        else:
            out.append((s, none()))
    return out


@P('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def str_find(I, cx, st, args):
    s_ = I.val(st, args[0])
    k, x = pat_seq(I, st, args[1])
    if k == 'fn':
        return None
    m = {'find': 'split_once', 'rfind': 'rsplit_once'}[cx.f['path'].rsplit('::', 1)[-1]]
    if x.op == 'bytes' and len(x.a[0]) == 1:
        c = exists_byte(s_, iset(x.a[0][0]))
    else:
        c = mk('strp', 'contains', s_, x)
    p = mk('posof', m, s_, x)
    out = []
    for s, t in part(st, c):
        if t:
            s = s.assume(le(add(p, seqlen(x)), seqlen(s_)), iset(1))
            for bpos in (p, add(p, seqlen(x))):
                bd = mk('charbound', s_, bpos)
                set_range(bd, BOOL)
                s = s and s.assume(bd, iset(1))
            if s is not None:
                out.append((s, some(p)))
        else:
            out.append((s, none()))
    return out


@P('std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_lowercase')
def str_lower(I, cx, st, args):
    return one(st, lower(I.val(st, args[0])) if 'ascii' in cx.f['path'] else mk('ulower', I.val(st, args[0])))


@P('std::str::<impl str>::to_ascii_uppercase', 'std::str::<impl str>::to_uppercase')
def str_upper(I, cx, st, args):
    return one(st, upper(I.val(st, args[0])) if 'ascii' in cx.f['path'] else mk('uupper', I.val(st, args[0])))


@P('core::str::<impl str>::make_ascii_lowercase', 'core::slice::ascii::<impl [u8]>::make_ascii_lowercase')
def str_mklower(I, cx, st, args):
    v = I.val(st, args[0])
    st = st.copy()
    I.store_ref(st, args[0], [], lower(v))
    return one(st, UNIT)


@P('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def str_eqic(I, cx, st, args):
    return one(st, eq(lower(I.val(st, args[0])), lower(I.val(st, args[1]))))


@P('core::str::<impl str>::is_ascii')
def str_is_ascii(I, cx, st, args):
    s = I.val(st, args[0])
    if s.op == 'bytes':
        return one(st, num(all(c < 128 for c in s.a[0])))
    return one(st, notb(exists_byte(s, irange(128, 255))))


@P('core::str::<impl str>::is_char_boundary')
def is_cb(I, cx, st, args):
    bd = mk('charbound', I.val(st, args[0]), I.val(st, args[1]))
    set_range(bd, BOOL)
    return one(st, bd)


@P('core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_start',
   'core::str::<impl str>::trim_matches', 'std::str::<impl str>::replace', 'std::str::<impl str>::replacen', 'std::str::<impl str>::repeat')
def str_misc(I, cx, st, args):
    return one(st, mk('strfn', cx.f['path'].rsplit('::', 1)[-1], *[I.val(st, a) for a in args]))


@P('core::str::<impl str>::parse')
def str_parse(I, cx, st, args):
    s_ = I.val(st, args[0])
    dt = I.P.types[cx.destty]
    c = mk('strp', 'parses', s_, mk('k', str(dt.get('n'))))
    v = I.opaque(dt['a'][0] if dt.get('a') else None, 'parsed', s_, mk('k', str(dt.get('n'))))
    return [(s, ok(v) if t else err(mk('zst', 'ParseError'))) for s, t in part(st, c)]


@P('std::str::from_utf8', 'std::string::String::from_utf8')
def from_utf8(I, cx, st, args):
    b = I.val(st, args[0])
    if b.op == 'bytes':
        return one(st, ok(b))
    if b.op == 'slice' and b.a[2].op != 'int' and any(y.op == 'validto' and slice_(y.a[0], num(0), sub(b.a[2], b.a[1])) is b for y in subterms(b.a[2])):
        return one(st, ok(b))
    c = mk('strp', 'utf8', b)
    return [(s, ok(b) if t else err(mk('agg', 'Utf8Error', 0, (b,)))) for s, t in part(st, c)]


@P('std::str::Utf8Error::valid_up_to', 'core::str::Utf8Error::valid_up_to')
def valid_up_to(I, cx, st, args):
    e = I.val(st, args[0])
    if e.op != 'agg' or len(e.a[2]) != 1:
        return one(st, I.opaque(cx.destty, 'validto', e))
    t = mk('validto', e.a[2][0])
    set_range(t, irange(0, (1 << 63) - 1))
    return one(st, t)


@P('std::char::methods::<impl char>::is_ascii_graphic', 'std::char::methods::<impl char>::is_control', 'std::char::methods::<impl char>::is_ascii',
   'std::char::methods::<impl char>::is_ascii_digit', 'std::char::methods::<impl char>::is_ascii_alphabetic', 'std::char::methods::<impl char>::is_ascii_uppercase',
   'std::char::methods::<impl char>::is_ascii_lowercase', 'std::char::methods::<impl char>::is_ascii_alphanumeric', 'std::char::methods::<impl char>::is_ascii_control',
   'std::char::methods::<impl char>::is_ascii_whitespace', 'std::char::methods::<impl char>::is_ascii_punctuation', 'std::char::methods::<impl char>::is_ascii_hexdigit')
def char_is(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op != 'int' and rng(v) == FULL:
        set_range(v, irange(0, 0x10ffff))
    return one(st, inset(v, ASCII[cx.f['path'].rsplit('::', 1)[-1]]))


@P('std::char::methods::<impl char>::to_ascii_lowercase', 'std::char::methods::<impl char>::to_ascii_uppercase')
def char_lower(I, cx, st, args):
    v = I.val(st, args[0])
    low = 'lower' in cx.f['path']
    return [(s, add(v, num(32 if low else -32)) if t else v) for s, t in part(st, inset(v, irange(65, 90) if low else irange(97, 122)))]


# formatting ----------------------------------------------------------------------
@P('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug', 'core::fmt::rt::Argument::<\'_>::new_upper_hex',
   'core::fmt::rt::Argument::<\'_>::new_lower_hex')
def fmt_new_arg(I, cx, st, args):
    k = cx.f['path'].rsplit('new_', 1)[-1]
    ga = cx.f.get('ga') or []
    ty = ga[0] if ga else None
    if ty is None and cx.argtys:
        ty = I.P.deref_ty(cx.argtys[0])
    v = I.val(st, args[0])
    return one(st, mk('agg', 'fmtarg', 0, (v, mk('k', k), mk('ty', ty))))


@P('std::fmt::Arguments::<\'a>::new', 'core::fmt::rt::<impl std::fmt::Arguments<\'a>>::new')
def fmt_new(I, cx, st, args):
    t = I.val(st, args[0])
    if t.op == 'arr':
        t = byts(bytes(x.a[0] for x in t.a[0]))
    if t.op != 'bytes':
        return None
    return one(st, args_seq(I, st, t, args[1]))


@P('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new_const', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def fmt_const(I, cx, st, args):
    return one(st, I.val(st, args[0]))


@P('std::fmt::format')
def fmt_format(I, cx, st, args):
    return one(st, I.val(st, args[0]))


@P('std::fmt::Write::write_fmt', 'std::fmt::Formatter::<\'a>::write_str', 'std::fmt::Formatter::<\'a>::write_fmt')
@TR('std::fmt::Write::write_fmt', 'std::fmt::Write::write_str')
def fmt_write(I, cx, st, args):
    v = I.val(st, args[0])
    x = I.val(st, args[1])
    st = st.copy()
    I.store_ref(st, args[0], [], ext(v, x))
    return one(st, ok(UNIT))


@TR('std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def fmt_disp(I, cx, st, args):
    v = I.val(st, args[1])
    x = I.val(st, args[0])
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else {'k': '?'}
    if T_['k'] == 'str' or T_.get('p', '').endswith('String'):
        if cx.f['trait'].endswith('Display::fmt'):
            st = st.copy()
            I.store_ref(st, args[1], [], ext(v, x))
            return one(st, ok(UNIT))
    st = st.copy()
    I.store_ref(st, args[1], [], ext(v, mk('disp', str(T_.get('n')), x)))
    return one(st, ok(UNIT))


# hashing ---------------------------------------------------------------------------
@TR('bitcoin_hashes::Hash::engine')
def h_engine(I, cx, st, args):
    return one(st, NIL)


@TR('bitcoin_hashes::HashEngine::input')
def h_input(I, cx, st, args):
    v, x = I.val(st, args[0]), I.val(st, args[1])
    st = st.copy()
    I.store_ref(st, args[0], [], ext(v, x))
    return one(st, UNIT)


@TR('bitcoin_hashes::Hash::from_engine')
def h_from_engine(I, cx, st, args):
    alg = re.search(r'bitcoin_hashes::(\w+)::', cx.f['full'])
    return one(st, mk('hash', alg.group(1) if alg else '?', I.val(st, args[0])))


@TR('bitcoin_hashes::Hash::hash')
def h_hash(I, cx, st, args):
    alg = re.search(r'bitcoin_hashes::(\w+)::', cx.f['full'])
    return one(st, mk('hash', alg.group(1) if alg else '?', I.val(st, args[0])))


@TR('bitcoin_hashes::Hash::to_byte_array', 'bitcoin_hashes::Hash::as_byte_array')
def h_bytes(I, cx, st, args):
    return one(st, I.val(st, args[0]))


# signatures ------------------------------------------------------------------------
def ring(I, cx, st, args):
    p = cx.f['path']
    if p.endswith('UnparsedPublicKey::<B>::new'):
        return one(st, mk('agg', 'ringkey', 0, (args[0], I.val(st, args[1]))))
    if p.endswith('::verify'):
        if 'rsa' in p:
            comps, alg, msg, sig = [I.val(st, a) for a in args]
            key = comps
        else:
            k, msg, sig = [I.val(st, a) for a in args]
            if k.op != 'agg' or k.a[0] != 'ringkey':
                return None
            alg, key = I.val(st, k.a[2][0]), k.a[2][1]
        t = mk('sigok', alg_name(alg), key, msg, sig)
        set_range(t, BOOL)
        cx.ev('verify', alg_name(alg), (key, msg, sig), st)
        out = []
        for v in (1, 0):
            s = st.assume(t, iset(v))
            if s is not None:
                out.append((s, ok(UNIT) if v else err(mk('zst', 'Unspecified'))))
        return out
    return None


def alg_name(t):
    if t.op == 'static':
        return str(t.a[0]).rsplit('::', 1)[-1]
    return show(t)


# io -------------------------------------------------------------------------------
def _log(I, st, tok):
    st = st.copy()
    st.store[LOG] = mk('ext', st.store.get(LOG, NIL), tok)
    st._k = None
    return st


def _fail(I, cx, st, what):
    """The state after an operation failed, and the error."""
    e = I.opaque(None, 'ioerr', cx.site, st.store.get(LOG, NIL))
    return _log(I, st, mk('io', 'failed', mk('k', what))), err(e)


def _partial(I, st, d, op):
    n = mk('ion', mk('k', op), st.store.get(LOG, NIL))
    set_range(n, irange(0, (1 << 63) - 1))
    return n, st.assume(le(n, seqlen(d)), iset(1))


@P('std::io::Write::write_all')
@TR('std::io::Write::write_all')
def io_write(I, cx, st, args):
    d = I.val(st, args[1])
    cx.ev('io', 'write', (d,), st)
    return [(_log(I, st, mk('io', 'write', d)), ok(UNIT)), _fail(I, cx, st, 'write')]


@TR('std::io::Write::write')
def io_write_some(I, cx, st, args):
    d = I.val(st, args[1])
    if not cx.argtys or 'Tcp' not in I.P.types[I.P.deref_ty(cx.argtys[0])].get('p', ''):
        return None
    cx.ev('io', 'write_some', (d,), st)
    n, s = _partial(I, st, d, 'write')
    return [(_log(I, s, mk("io", "write", slice_(d, num(0), n))), ok(n)), _fail(I, cx, st, 'write')]


@TR('std::io::Write::flush')
def io_flush(I, cx, st, args):
    return [(st.copy(), ok(UNIT)), _fail(I, cx, st, 'flush')]


@P('std::io::Read::read_exact')
@TR('std::io::Read::read_exact')
def io_read(I, cx, st, args):
    d = I.val(st, args[1])
    cx.ev('io', 'read', (seqlen(d),), st)
    inp = mk('input', st.store.get(LOG, NIL), seqlen(d))
    a = _log(I, st, mk('io', 'read', seqlen(d)))
    I.store_ref(a, args[1], [], inp)
    return [(a, ok(UNIT)), _fail(I, cx, st, 'read')]


@TR('std::io::Read::read')
def io_read_some(I, cx, st, args):
    d = I.val(st, args[1])
    if not cx.argtys or 'Tcp' not in I.P.types[I.P.deref_ty(cx.argtys[0])].get('p', ''):
        return None
    cx.ev('io', 'read_some', (seqlen(d),), st)
    log = st.store.get(LOG, NIL)
    n, s = _partial(I, st, d, 'read')
    a = _log(I, s, mk('io', 'read', n))
    I.store_ref(a, args[1], [], splice(d, num(0), mk('input', log, n)))
    return [(a, ok(n)), _fail(I, cx, st, 'read')]


@P('tokio::io::AsyncWriteExt::write_all', 'tokio::io::AsyncReadExt::read_exact', 'tokio::io::AsyncReadExt::read',
   'tokio::io::AsyncWriteExt::write', 'tokio::io::AsyncWriteExt::flush', 'tokio::io::AsyncWriteExt::shutdown')
def aio(I, cx, st, args):
    k = cx.f['path'].rsplit('::', 1)[-1]
    return one(st, mk('agg', 'fut', 0, (mk('k', k),) + tuple(args)))


POLL = 'std::task::Poll'


def ready(v):
    return mk('agg', POLL, 0, (v,))


@TR('std::future::Future::poll')
def fpoll(I, cx, st, args):
    a = args[0]
    v = I.val(st, a)
    if v.op == 'agg' and v.a[0] == 'std::pin::Pin':
        v = I.val(st, v.a[2][0])
    if v.op == 'agg' and isinstance(v.a[0], tuple) and v.a[0][0] == 'coroutine':
        f = I.P.fns[v.a[0][1]]
        return I.inline(cx.fr, cx.b, st, f, args, cx.destty, cx.span, 'poll', cx.argtys)
    if v.op == 'agg' and v.a[0] == 'fut':
        k = v.a[2][0].a[0]

        def failed(st):
            s, x = _fail(I, cx, st, k.split('_')[0])
            return s, ready(x)
        d = I.val(st, v.a[2][2]) if len(v.a[2]) > 2 else NIL
        log = st.store.get(LOG, NIL)
        if k in ('write_all', 'flush', 'shutdown'):
            cx.ev('io', 'write' if k == 'write_all' else k, (d,), st)
            s = _log(I, st, mk('io', 'write', d)) if k == 'write_all' else st.copy()
            return [(s, ready(ok(UNIT))), failed(st)]
        if k == 'write':
            cx.ev('io', 'write_some', (d,), st)
            n, s = _partial(I, st, d, k)
            return [(_log(I, s, mk("io", "write", slice_(d, num(0), n))), ready(ok(n))), failed(st)]
        if k in ('read', 'read_exact') and v.a[2][2].op != 'ref':
            return None
        if k == 'read_exact':
            cx.ev('io', 'read', (seqlen(d),), st)
            s = _log(I, st, mk('io', 'read', seqlen(d)))
            I.store_ref(s, v.a[2][2], [], mk('input', log, seqlen(d)))
            return [(s, ready(ok(seqlen(d)))), failed(st)]
        if k == 'read':
            cx.ev('io', 'read_some', (seqlen(d),), st)
            n, s = _partial(I, st, d, k)
            s = _log(I, s, mk('io', 'read', n))
            I.store_ref(s, v.a[2][2], [], splice(d, num(0), mk('input', log, n)))
            return [(s, ready(ok(n))), failed(st)]
    # some other foreign future: resolves to an unknown value
    dt = I.P.types[cx.destty] if cx.destty is not None else {}
    ity = dt['a'][0] if dt.get('a') else None
    s = _log(I, st, mk('io', 'await', mk('k', cx.f['full'])))
    return one(s, ready(I.opaque(ity, 'awaited', cx.f['full'], cx.site, st.store.get(LOG, NIL))))


@P('std::future::get_context')
def get_ctx(I, cx, st, args):
    return one(st, mk('zst', 'context'))


def foreign_async(I, cx, st, args):
    return fpoll(I, cx, st, args)


def tokio_connect(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op == 'agg' and v.a[0] == 'std::pin::Pin':
        v = I.val(st, v.a[2][0])
    cx.ev('io', 'connect', (v.a[2][1],) if v.op == 'agg' and v.a[0] == 'ffut' and len(v.a[2]) > 1 else (), st)
    s, x = _fail(I, cx, st, 'connect')
    return [(_log(I, st, mk('io', 'connect')), ready(ok(mk('socket', cx.site, st.store.get(LOG, NIL))))), (s, ready(x))]


PATH['tokio::net::TcpStream::connect::{closure#0}'] = tokio_connect


for _p in ('tokio::net::TcpListener::accept::{closure#0}', 'tokio::net::TcpListener::bind::{closure#0}',
           'tokio::task::yield_now::{closure#0}', 'tokio::time::sleep::{closure#0}'):
    def _h(I, cx, st, args, _p=_p):
        dt = I.P.types[cx.destty] if cx.destty is not None else {}
        ity = dt['a'][0] if dt.get('a') else None
        cx.ev('io', _p.split('::{')[0], tuple(I.val(st, a) for a in args), st)
        s = _log(I, st, mk('io', 'await', mk('k', _p)))
        return one(s, ready(I.opaque(ity, 'awaited', _p, cx.site, st.store.get(LOG, NIL))))
    PATH[_p] = _h


@P('tokio::net::TcpStream::connect', 'tokio::net::TcpListener::accept', 'tokio::net::TcpListener::bind', 'tokio::task::yield_now', 'tokio::time::sleep')
def mk_foreign(I, cx, st, args):
    return one(st, mk('agg', 'ffut', 0, (mk('k', cx.f['path']),) + tuple(I.val(st, a) for a in args)))


@P('tokio::spawn', 'tokio::task::spawn', 'tokio::task::spawn::spawn')
def tk_spawn(I, cx, st, args):
    v = I.val(st, args[0])
    cx.ev('io', 'spawn', (v,), st)
    s = _log(I, st, mk('io', 'spawn', v))
    return one(s, mk('zst', 'JoinHandle'))


@P('std::net::TcpStream::connect')
def tcp_connect(I, cx, st, args):
    cx.ev('io', 'connect', (I.val(st, args[0]),), st)
    s = _log(I, st, mk('io', 'connect'))
    dt = I.P.types[cx.destty]
    return [(s, ok(I.opaque(dt['a'][0] if dt.get('a') else None, 'socket', cx.site, st.store.get(LOG, NIL)))), _fail(I, cx, st, 'connect')]


@P('alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new')
def io_err(I, cx, st, args):
    return one(st, mk('agg', 'ioerror', 0, tuple(I.val(st, a) for a in args)))


@P('std::intrinsics::integer_min', 'std::cmp::min')
@TR('std::cmp::Ord::min')
def imin2(I, cx, st, args):
    return one(st, mini(I.val(st, args[0]), I.val(st, args[1])))


@P('std::intrinsics::integer_max', 'std::cmp::max')
@TR('std::cmp::Ord::max')
def imax2(I, cx, st, args):
    return one(st, maxi(I.val(st, args[0]), I.val(st, args[1])))


@P('std::intrinsics::compare_bytes')
def cmp_bytes(I, cx, st, args):
    return None


@P('hex_lit::msrv_opt_in')
def hexlit(I, cx, st, args):
    return one(st, UNIT)


# options (those not inlined) -------------------------------------------------------
@P('std::mem::take')
def mem_take(I, cx, st, args):
    v = I.val(st, args[0])
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])]
    st = st.copy()
    if T_.get('p', '').endswith(('Vec', 'String')):
        d = NIL
    elif T_.get('p') == OPT:
        d = none()
    elif T_['k'] in ('int', 'bool'):
        d = num(0)
    else:
        return None
    I.store_ref(st, args[0], [], d)
    return one(st, v)


@P('std::mem::replace')
def mem_replace(I, cx, st, args):
    v = I.val(st, args[0])
    st = st.copy()
    I.store_ref(st, args[0], [], args[1])
    return one(st, v)


@P('std::mem::swap')
def mem_swap(I, cx, st, args):
    a, b = I.val(st, args[0]), I.val(st, args[1])
    st = st.copy()
    I.store_ref(st, args[0], [], b)
    I.store_ref(st, args[1], [], a)
    return one(st, UNIT)


@P('std::mem::drop', 'std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::mem::forget',
   'std::vec::Vec::<T, A>::reserve_exact')
def noop(I, cx, st, args):
    return one(st, UNIT)


@P('std::mem::size_of')
def size_of(I, cx, st, args):
    return None


@P('std::ops::RangeInclusive::<Idx>::new', 'std::ops::RangeInclusive::new')
def range_inc_new(I, cx, st, args):
    return one(st, mk('agg', 'std::ops::RangeInclusive', 0, (I.val(st, args[0]), I.val(st, args[1]), FALSE)))


def _in_range(I, st, args, incl):
    r, x = I.val(st, args[0]), I.val(st, args[1])
    if r.op != 'agg' or len(r.a[2]) < 2:
        return None
    lo, hi = I.val(st, r.a[2][0]), I.val(st, r.a[2][1])
    return one(st, band(le(lo, x), le(x, hi) if incl else lt(x, hi)))


@P('std::ops::RangeInclusive::<Idx>::contains', 'std::ops::RangeInclusive::contains')
def range_inc_contains(I, cx, st, args):
    return _in_range(I, st, args, True)


@P('std::ops::Range::<Idx>::contains', 'std::ops::Range::contains')
def range_contains(I, cx, st, args):
    return _in_range(I, st, args, False)


# ------------------------------------------------------------------ socket addresses
@P('std::net::SocketAddr::new', 'core::net::SocketAddr::new', 'std::net::socket_addr::SocketAddr::new')
def sockaddr_new(I, cx, st, args):
    ip, port = I.val(st, args[0]), I.val(st, args[1])
    if ip.op == 'ipof' and port.op == 'portof' and ip.a[0] is port.a[0]:
        return one(st, ip.a[0])
    return one(st, mk('sockaddr', ip, port))


@P('std::net::SocketAddr::ip', 'core::net::SocketAddr::ip', 'std::net::socket_addr::SocketAddr::ip')
def sockaddr_ip(I, cx, st, args):
    a = I.val(st, args[0])
    return one(st, a.a[0] if a.op == 'sockaddr' else mk('ipof', a))


@P('std::net::SocketAddr::port', 'core::net::SocketAddr::port', 'std::net::socket_addr::SocketAddr::port')
def sockaddr_port(I, cx, st, args):
    a = I.val(st, args[0])
    t = a.a[1] if a.op == 'sockaddr' else mk('portof', a)
    set_range(t, irange(0, 65535))
    return one(st, t)


@P('std::vec::Vec::<T, A>::capacity', 'std::vec::Vec::<T>::capacity', 'std::string::String::capacity')
def vec_capacity(I, cx, st, args):
    v = I.val(st, args[0])
    t = mk('capof', v, cx.site)
    set_range(t, irange(0, (1 << 63) - 1))
    return one(st.assume(le0(sub(seqlen(v), t)), iset(1)) or st, t)


# ------------------------------------------------------------------ double-ended queues, as sequences
@P('std::collections::VecDeque::<T, A>::pop_front')
def vpop_front(I, cx, st, args):
    v = I.val(st, args[0])
    out = []
    for s, e in part(st, seq_empty(I, cx, st, v)):
        if e:
            out.append((s, none()))
            continue
        s = s.copy()
        x = idx(v, num(0))
        ga = cx.f.get('ga') or []
        I.note(x, ga[0] if ga else None)
        I.store_ref(s, args[0], [], slice_(v, num(1), seqlen(v)))
        cx.ev('pop', refname(args[0]), (x,), s, data=(v,))
        out.append((s, some(x)))
    return out


@P('std::collections::VecDeque::<T, A>::push_front')
def vpush_front(I, cx, st, args):
    v = I.val(st, args[0])
    st = st.copy()
    I.store_ref(st, args[0], [], rext(push(NIL, args[1], mk('ps', cx.site)), v))
    cx.ev('push', refname(args[0]), (args[1],), st, data=(args[0], v, None))
    return one(st, UNIT)


def vend(front):
    def go(I, cx, st, args):
        v = I.val(st, args[0])
        out = []
        for s, e in part(st, seq_empty(I, cx, st, v)):
            x = None if e else idx(v, num(0) if front else sub(seqlen(v), num(1)))
            out.append((s, none() if e else some(x)))
        return out
    return go


def vd_from(I, cx, st, args):
    """Conversions between queues and vectors keep the elements."""
    dt = I.P.types[cx.destty] if cx.destty is not None else {}
    return one(st, I.val(st, args[0])) if dt.get('p', '').endswith(('VecDeque', 'Vec')) else None


# library functions with a body that are nevertheless modelled: start of the path, trait -> model
PRE = [('<std::collections::VecDeque<', 'std::convert::From::from', vd_from)]


PATH['std::collections::VecDeque::<T, A>::front'] = vend(True)
PATH['std::collections::VecDeque::<T, A>::back'] = vend(False)
