"""Validation always terminates and visits each zone at most once.

Every loop of every function that validation can reach is given a reason to end (see term.py): a finite iterator made
outside it, a list that gets shorter or a counter that moves towards its bound on every way round, or - for the walk
over the zones - a work list whose entries are added only for names new to a list of names seen, which gets that name in
the same step and starts with the zone the walk starts from.
"""
RULE = 'ranking argument for every loop reachable from validation; guard of every addition to the list of zones to visit'
from vs import *
import term


def check(ctx, rep):
    roots = rep.need('verify_rr_stream')
    fs = term.reach(ctx, roots)
    rep.floor('functions reachable from validation', len(fs), 5)
    n = term.judge(ctx, rep, [f for f in fs], 'ends')
    rep.floor('loops', n, 1, hard=False)
    recursion(ctx, rep, fs)
    r = stream_run(ctx, rep)
    if r:
        once(rep, r)


def recursion(ctx, rep, fs):
    P = ctx.prog()
    ids = {f['id']: f for f in fs}
    g = {i: {j for b in P.body(f).bbs for j in term.fn_ids(b, P.types) if j in ids} for i, f in ids.items()}
    for i in g:
        for j in list(g):
            pre = ids[i]['path'] + '::{closure'
            if ids[j]['path'].startswith(pre):
                g[i].add(j)
    state = {}

    def dfs(u, path):
        state[u] = 1
        for v in g[u]:
            if state.get(v) == 1:
                return path + [v]
            if v not in state:
                k = dfs(v, path + [v])
                if k:
                    return k
        state[u] = 2
        return None
    for u in g:
        if u not in state:
            k = dfs(u, [u])
            if k:
                return rep.unknown('recursion', ' -> '.join(ids[x]['path'] for x in k))
    rep.good('recursion', 'no function reachable from validation calls itself')


def once(rep, r):
    """The zone of each verify_dnskeys call is the starting zone or a name the walk has not seen before."""
    w = r.f['span']
    zs = []
    for e in events(r, 'vdk'):
        z, whole, det = comp_zone(r, e.args[2], 'DnsKey')
        if z is None:
            rep.unknown('once', det, w)
        else:
            zs.append((e, z))
    lists, start, nocover = set(), set(), False
    for e, z in zs:
        b = z
        while b.op == 'fld':
            b = b.a[0]
        if b.op == 'idx' and r.I.phis.get(b.a[0]) is not None:
            lists.add((b.a[0], z))
        elif z in r.I.phis or is_bytes(z):
            for v in ([v for v, _ in r.I.phis[z]] if z in r.I.phis else [z]):
                if is_bytes(v):
                    start.add(v)
                    start |= set()
                elif v is not z and not (v in r.I.phis):
                    x = v
                    while x.op == 'fld':
                        x = x.a[0]
                    if x.op == 'idx' and x.a[0] in r.I.phis:
                        lists.add((x.a[0], v))
        else:
            nocover = True
    if nocover or not lists or not start:
        return rep.unknown('once', 'zones visited: %s' % [show(z)[:80] for _, z in zs], w)
    for L, z in lists:
        cx, h, key = L.a[0], L.a[1], L.a[3]
        if cx.a[0] != 'root' or L.op != 'phi':
            rep.unknown('once', show(z)[:100], w)
            continue
        blocks, states = r.I.loops.get((cx, h), ((), ()))
        gs, other = term.pushes(r, cx, h, blocks, states, key)
        if other or not gs:
            rep.unknown('once', 'additions to the list of zones to visit not understood', w)
            continue
        zp = []
        x = z
        while x.op == 'fld':
            zp.append(x.a[1])
            x = x.a[0]
        from rules import c04
        for s, L0, item in gs:
            for c in s.facts:
                g = term.guard(r, s, c, item, key)
                if g[0] is not True:
                    rep.judge('once:new', g[0], g[1] if len(g) > 1 else 'guard not understood', w)
                    continue
                nm = c04.proj(item, zp)
                rep.judge('once:new', nm is g[2] or same(c, nm, g[2]) or (None if r.imprecise(nm) is not None else False), 'a zone is added only if its own name is new', w)
                seen0 = initial(r, g[1], cx, h)
                if seen0 is None:
                    rep.unknown('once:start', 'initial list of names seen', w)
                    continue
                for v in start:
                    rep.judge('once:start', v in seen0, 'the zone the walk starts from (%s) is among the names seen from the start' % show(v), w)


def is_bytes(t):
    return t.op == 'bytes'


def initial(r, key, cx, h):
    """Elements of the list stored under key when loop h is entered."""
    out = set()
    ps = [p for p in term.head_phis(r, cx, h) if p.a[3] == key and not p.a[4]]
    if not ps:
        return None
    found = False
    for p in ps:
        for v, _ in r.I.phis[p]:
            if any(x in ps for x in subterms(v)) or v in r.I.phis:
                continue
            found = True
            x = v
            while x.op == 'push':
                out.add(x.a[1])
                x = x.a[0]
            if x.op == 'arr':
                out |= set(x.a[0])
            elif x is not NIL:
                return None
    return out if found else None
