"""RRsets are signed over in canonical order whatever the input order.

The list whose elements make up the signed bytes on every accepting path of verify_rrsig has to be the given records
sorted by their RDATA without its length prefix, compared as byte strings.  For every type with both a total and a
partial order the two decision tables are derived; they have to be the same table up to the Some(..) around the partial
one.  Tables without loops are compared cell by cell over all outcomes (less, equal, greater) of the field comparisons.
"""
RULE = 'derived sort key of the signed list; decision-table equality of Ord and PartialOrd'
import itertools
from vs import *


def check(ctx, rep):
    for r in runs_of(ctx, rep, 'verify_rrsig'):
        order(rep, r)
    orders(ctx, rep)


def rdata_of(x):
    t = mk('rdata_lp', x)
    return slice_(t, num(2), seqlen(t))


def lists(r):
    """The sequences whose elements' RDATA enters a byte string checked by an accepting path, with the record term."""
    out = {}
    for st, v in r.rets:
        if is_err(v):
            continue
        for c in st.facts:
            for t in sigoks(c):
                for v2, _ in r.phi(t.a[2]) or ():
                    for p in parts(v2):
                        for x in subterms(p):
                            if x.op == 'rdata_lp' and x.a[0].op == 'idx':
                                out[x.a[0]] = 1
    return list(out)


def order(rep, r):
    w, n = r.f['span'], 0
    for st, v in r.rets:
        for c in () if is_err(v) else st.facts:
            for t in sigoks(c):
                for d in loop_done(r, c, t.a[2]):
                    if 'rev' in d.a[1]:
                        rep.bad('order', 'the sorted records are signed over backwards', w)
    for rec in lists(r):
        i = rec.a[1]
        D = i.a[0] if i.op == 'elem' else None
        if D is not None and D.op == 'range' and D.a[0] is num(0) and D.a[1] is seqlen(rec.a[0]):
            D = mk('over', rec.a[0])
        if D is None or D.op not in ('seqdrv', 'over', 'seqit'):
            rep.unknown('order', 'the records come from %s' % show(rec)[:160], w)
            continue
        S = D.a[0]
        n += 1
        if S is rec.a[0] or S is r.p(2):
            rep.bad('order', 'the records are signed over in the order supplied', w)
            continue
        if S.op != 'sorted':
            rep.judge('order', False if S.op == 'rev' else None, 'the records are signed over in the order of %s' % show(S)[:160], w)
            continue
        how = S.a[1]
        a, b = mk('sbv', 0), mk('sbv', 1)
        if how.op == 'bykey':
            k = how.a[0]
            if k is rdata_of(a):
                rep.good('order', 'sorted by RDATA', w)
            elif prefix_only(k, rdata_of(a)):
                rep.bad('order', 'sorted by no more than the first bytes of the RDATA: %s' % show(k)[:160], w)
            elif r.imprecise(k) is not None or any(x in r.I.phis or x.op in ('case?', 'comp') for x in subterms(k)):
                rep.unknown('order', 'sorted by %s' % show(k)[:160], w)
            else:
                rep.bad('order', 'sorted by %s, not by the RDATA bytes' % show(k)[:160], w)
        elif how.op == 'bycmp':
            bycmp(rep, r, how.a[0], a, b, w)
        elif how.op == 'ordof':
            rep.bad('order', 'sorted by the records\' own order (%s), which is not the order of their RDATA bytes' % how.a[0], w)
        else:
            rep.unknown('order', 'sorted by %s' % show(how)[:120], w)
    rep.floor('ordered lists', n, 1, hard=False)


def prefix_only(k, whole):
    """The key, whichever case it comes from, is the RDATA or a part of it of constant length."""
    vs = k.a if k.op == 'case?' else (k,)
    def part(v):
        return v.op == 'slice' and whole.op == 'slice' and v.a[0] is whole.a[0] and v.a[1] is whole.a[1] and is_num(v.a[2]) and v.a[2].a[0] < 60000
    return all(isinstance(v, T) and (v is whole or part(v)) for v in vs) and any(part(v) for v in vs)


def bycmp(rep, r, key, a, b, w):
    A, B = rdata_of(a), rdata_of(b)
    rows = []
    for d, v in key:
        rows.append((dict(d), v))
    ts = [x for d, v in rows for t in list(d) + [v] for x in subterms(t)]
    if any(x in r.I.phis or x.op in ('unk', 'unmod', 'havoc', 'opq', 'case?') for x in ts):
        return rep.unknown('order', 'sorted by a comparison that is not derived', w)
    res = table(rows, [(A, B)])
    if res is None:
        if not any(x.op == 'rdata_lp' for x in ts):
            return rep.bad('order', 'sorted by a comparison of something other than the RDATA bytes', w)
        whole = mk('rdata_lp', a), mk('rdata_lp', b)
        if table(rows, [whole]) is not None:
            return rep.bad('order', 'sorted by the RDATA with its length prefix', w)
        return rep.unknown('order', 'sorted by %s' % [show(v)[:80] for _, v in rows], w)
    want = {(-1,): {-1}, (0,): {0}, (1,): {1}}
    rep.judge('order', res == want, 'sorted by RDATA' if res == want else 'sorted by RDATA, but not ascending: %s' % res, w)


# ---------------------------------------------------------------- decision tables over field comparisons
def ordval(v):
    """-1, 0, 1 of an Ordering constant, ('cmp', kind, a, b), or None."""
    if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('cmp::Ordering'):
        return v.a[1] - 1
    if v.op == 'cmp3':
        return v
    return None


def rel(t, s, pairs, pos):
    """Truth of fact (t in s) under a choice of relations for the pairs (True/False), None if it is about anything else."""
    def r_of(x, y):
        for i, (p, q) in enumerate(pairs):
            if x is p and y is q:
                return pos[i]
            if x is q and y is p:
                return -pos[i]
        return None
    if t.op == 'lexlt':
        k = r_of(t.a[0], t.a[1])
        return None if k is None else s.has(int(k < 0))
    if t.op == 'eq':
        k = r_of(t.a[0], t.a[1])
        return None if k is None else s.has(int(k == 0))
    if t.op in ('eq0', 'le0'):
        k0, l = lin_parts(t.a[0])
        if len(l) == 2:
            (x, cx), (y, cy) = l.items()
            if {cx, cy} == {1, -1}:
                if cx == -1:
                    x, y = y, x
                k = r_of(x, y)
                if k is None:
                    return None
                if t.op == 'eq0':
                    return s.has(int(k == 0)) if k0 == 0 else None
                if k0 == 0:
                    return s.has(int(k <= 0))
                if k0 == 1:
                    return s.has(int(k < 0))
    return None


def table(rows, pairs):
    """{relations of the pairs: outcomes}, or None when the rows are about anything else."""
    out = {}
    for pos in itertools.product((-1, 0, 1), repeat=len(pairs)):
        got = set()
        for d, v in rows:
            hold = True
            for t, s in d.items():
                k = rel(t, s, pairs, pos)
                if k is None:
                    return None
                hold = hold and k
            if not hold:
                continue
            o = ordval(v)
            if o is None:
                return None
            if not isinstance(o, int):
                k = rel(mk('lexlt', o.a[1], o.a[2]), iset(1), pairs, pos)
                z = rel(mk('eq', o.a[1], o.a[2]), iset(1), pairs, pos)
                if k is None or z is None:
                    return None
                o = -1 if k else 0 if z else 1
            got.add(o)
        out[pos] = got
    return out


def pairs_in(rows):
    """Pairs (x of the first, y of the second operand) that the rows compare."""
    ps = {}

    def put(x, y):
        sx, sy = {z for z in subterms(x) if z.op == 'param'}, {z for z in subterms(y) if z.op == 'param'}
        if sx == {mk('param', 'p0')} and sy == {mk('param', 'p1')}:
            ps[(x, y)] = 1
        elif sy == {mk('param', 'p0')} and sx == {mk('param', 'p1')}:
            ps[(y, x)] = 1
        else:
            return False
        return True
    for d, v in rows:
        for t in d:
            if t.op in ('lexlt', 'eq') and len(t.a) == 2:
                if not put(*t.a):
                    return None
            elif t.op in ('eq0', 'le0'):
                l = lin_parts(t.a[0])[1]
                if len(l) != 2 or not put(*l):
                    return None
            else:
                return None
        if v.op == 'cmp3' and not put(v.a[1], v.a[2]):
            return None
    return list(ps)


def rows_of(r, unwrap):
    out = []
    for st, v in r.rets:
        if unwrap:
            if is_none(v):
                v = NIL
            elif is_some(v):
                v = pay(v)
            else:
                return None
        for c in st.facts:
            out.append((dict(c.d), v))
    return out


COMM = ('min', 'max', 'eq', 'and', 'or', 'xor', 'mul', 'eq0', 'lin')


def cstr(t, memo):
    """A term as text, independent of the order terms were made in and of loop sites."""
    if not hasattr(t, 'op'):
        if isinstance(t, (tuple, frozenset)):
            xs = [cstr(x, memo) for x in t]
            return '(' + ','.join(sorted(xs) if isinstance(t, frozenset) else xs) + ')'
        return repr(t)
    if t in memo:
        return memo[t]
    if t.op == 'lin':
        s = 'lin(%r,%s)' % (t.a[0], ','.join(sorted(cstr(k, memo) + '*' + repr(c) for k, c in t.a[1])))
    elif t.op == 'elem':
        s = 'elem(%s)' % cstr(t.a[0], memo)
    elif t.op == 'done':
        s = 'done(%s,%s)' % (cstr(t.a[0], memo), cstr(t.a[1], memo))
    elif t.op == 'eq0':
        k, l = lin_parts(t.a[0])
        one_ = cstr(t.a[0], memo)
        two = 'lin(%r,%s)' % (-k, ','.join(sorted(cstr(x, memo) + '*' + repr(-c) for x, c in l.items())))
        s = 'eq0(%s)' % min(one_, two)
    else:
        xs = [cstr(x, memo) for x in t.a]
        s = '%s(%s)' % (t.op, ','.join(sorted(xs) if t.op in COMM else xs))
    memo[t] = s
    return s


def canon(rows):
    memo = {}
    return {(frozenset((cstr(k, memo), repr(s)) for k, s in d.items()), cstr(v, memo)) for d, v in rows}


def orders(ctx, rep):
    P = ctx.prog('lib')
    by = {}
    for f in P.fns:
        if f.get('local') and 'body' in f and f.get('trait') in ('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp') and f.get('self') is not None:
            T = P.types[f['self']]
            if T.get('k') in ('struct', 'enum'):
                by.setdefault(T['p'], {})[f['trait'].split('::')[-1]] = f
    n = 0
    for p, d in sorted(by.items()):
        if len(d) != 2:
            continue
        n += 1
        o, q = d['cmp'], d['partial_cmp']
        nm, w = p.split('::')[-1], q['span']
        if o.get('derived') and q.get('derived'):
            rep.good('agree:' + nm, 'both orders are derived from the same fields', w)
            continue
        ro, rq = ctx.run(o), ctx.run(q)
        if not (ro.ok and rq.ok) or ro.unmod() or rq.unmod():
            if o.get('derived') != q.get('derived'):
                rep.bad('agree:' + nm, 'only one of the two orders is derived', w)
            else:
                rep.unknown('agree:' + nm, 'not derived', w)
            continue
        A, B = rows_of(ro, False), rows_of(rq, True)
        if A is None or B is None:
            rep.unknown('agree:' + nm, 'not in closed form', w)
            continue
        if any(v is NIL for _, v in B):
            rep.bad('agree:' + nm, 'the partial order leaves values incomparable', w)
            continue
        if canon(A) == canon(B):
            rep.good('agree:' + nm, 'the same decision table (%d rows)' % len(A), w)
            continue
        p0, p1, tmp = mk('param', 'p0'), mk('param', 'p1'), mk('param', 'swap')
        sw = lambda t: subst(subst(subst(t, {p0: tmp}), {p1: p0}), {tmp: p1})
        if canon(A) == canon([({sw(k): s for k, s in d.items()}, sw(v)) for d, v in B]):
            rep.bad('agree:' + nm, 'the partial order is the total order of the operands exchanged', w)
            continue
        pa, pb = pairs_in(A), pairs_in(B)
        if pa is not None and pb is not None:
            ps = list(dict.fromkeys(pa + pb))
            if len(ps) <= 9:
                ta, tb = table(A, ps), table(B, ps)
                if ta is not None and tb is not None:
                    bad = [k for k in ta if ta[k] and tb[k] and not (ta[k] & tb[k])]
                    rep.judge('agree:' + nm, not bad, 'tables agree in %d cells' % len(ta) if not bad else 'the orders differ when %s' % ', '.join('%s %s' % (show(x[0])[:40], {-1: '<', 0: '=', 1: '>'}[z]) for x, z in zip(ps, bad[0])), w)
                    continue
        if o.get('derived') != q.get('derived'):
            rep.bad('agree:' + nm, 'only one of the two orders is derived from the fields', w)
        elif (pa is None) != (pb is None):
            rep.bad('agree:' + nm, 'one order compares by chunks, the other by whole fields', w)
        else:
            rep.unknown('agree:' + nm, 'tables differ in form', w)
    rep.floor('ordered types', n, 12)
