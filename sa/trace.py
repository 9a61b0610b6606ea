"""Traces of external effects: the log of a run as an automaton over loop heads."""
from base import *
from natives import LOG


def splits(v, fs=F.TOP):
    """[(base, [effects], conditions)] of a log value; base: NIL, a value carried by a loop or meeting point, None if unknown.

    Where two branches were joined with the log of each kept under its condition they are told apart again."""
    if v.op == 'ext':
        out = []
        for b, ts, f1 in splits(v.a[0], fs):
            for b2, t2, f2 in splits(v.a[1], f1):
                out.append((None if b is None or b2 is not NIL else b, ts + t2, f2))
        return out
    if v.op == 'io':
        return [(NIL, [v], fs)]
    if v.op == 'ite':
        c = v.a[0]
        out = []
        for k, x in ((1, v.a[1]), (0, v.a[2])):
            f1 = F.dnf_assume(fs, c, iset(k))
            if f1:
                out += splits(x, f1)
        return out
    return [(v, [], fs)]


def toks(v):
    """(base, [effects]) of a log value without joined branches."""
    s = splits(v)
    if len(s) != 1:
        return None, []
    return s[0][:2]


def logs(r):
    """The log values carried by loops and meeting points."""
    return [p for p in r.I.phis if p.op == 'phi' and p.a[3] == LOG]


def edges(r, p):
    """(base, effects, conditions) of each way the log gets to p, other than staying there."""
    return [x for v, fs in r.I.phis[p] if v is not p for x in splits(v, fs)]


def cat(ds):
    t = NIL
    for d in ds:
        t = ext(t, d)
    return t


def is_frame(t, q):
    """Whether t is the message q as sent over TCP: its length in two bytes, then itself."""
    n = seqlen(q)
    if any(t is cat([mk('be', 16, x), q]) for x in (mk('wrap', 16, n), n)):
        return True
    ps = []
    while t.op == 'ext':
        ps.append(t.a[1])
        t = t.a[0]
    ps = [x for x in [t] + ps[::-1] if x is not NIL]
    return len(ps) == 2 and ps[1] is q and ps[0].op == 'arr' and len(ps[0].a[0]) == 2 and \
        all(by(ps[0].a[0][i], n, v) == (v >> 8 * (1 - i)) & 255 for i in (0, 1) for v in range(1 << 16))


def by(t, n, v):
    """The number t is for n = v, None if it is made of anything else."""
    if t is n:
        return v
    if t.op == 'int':
        return t.a[0]
    if t.op == 'lin':
        xs = [(by(k, n, v), c) for k, c in t.a[1]]
        return None if any(x is None for x, c in xs) else t.a[0] + sum(x * c for x, c in xs)
    if t.op == 'wrap':
        x = by(t.a[1], n, v)
        return None if x is None else x % (1 << t.a[0])
    if t.op in ('div', 'mod'):
        x, y = by(t.a[0], n, v), by(t.a[1], n, v)
        return None if x is None or not y else x // y if t.op == 'div' else x % y
    return None


def dominated(r, ev, root=None):
    """Loop heads of the root body every path to the event goes through."""
    f = r.f
    cx, b = ev.ctx, ev.site
    while cx.op == 'ctx' and cx.a[0] != 'root' and not (isinstance(cx.a[1], str)):
        b = cx.a[1].a[0]
        cx = cx.a[0]
    body = r.P.fns[cx.a[1] if cx.a[0] == 'root' else cx.a[2]]['body']['bbs']
    fid = lambda c: c.a[1] if c.a[0] == 'root' else c.a[2]

    def reached(bbs, avoid, goal):
        """Whether goal (None: a return) can be reached from the start without the block to avoid."""
        seen, todo = set(), [0]
        while todo:
            x = todo.pop()
            if x in seen or x == avoid:
                continue
            seen.add(x)
            if goal is None and bbs[x]['t'][0] in ('ret', 'return'):
                return True
            todo += [y for y in engine.succs(bbs[x]['t']) if not bbs[y]['c']]
        return goal in seen

    def cut_by(c, x):
        """Whether every path to the event goes through block x of context c."""
        while c is not cx:
            if c.op != 'ctx' or c.a[0] == 'root' or isinstance(c.a[1], str) or c.a[1].op != 'cs':
                return False
            if reached(r.P.fns[fid(c)]['body']['bbs'], x, None):
                return False
            c, x = c.a[0], c.a[1].a[0]
        return not reached(body, x, b)
    return [(lc, h) for lc, h in r.I.entries if cut_by(lc, h)]


def holds_at(r, ev, pred):
    """Whether pred holds of the conditions of every path to the event (those dropped where paths meet at loops included)."""
    if all(pred(c) for c in ev.facts):
        return True
    for h in dominated(r, ev):
        es = r.I.entries[h]
        if es and all(pred(c) for k, st in es for c in st.facts):
            return True
    return False


def all_facts(r, ev):
    """Every condition known on some path to the event."""
    for c in ev.facts:
        yield from c.d.items()
    for h in dominated(r, ev):
        for k, st in r.I.entries[h]:
            for c in st.facts:
                yield from c.d.items()


def handler(ctx, rep):
    """The run of the HTTP server's connection handler (its proof builders abstracted), None when not found."""
    P = ctx.prog('bin')
    for f in rep.need('run_server', 'bin'):
        r = ctx.run(f, 'bin', extra=CUTS.SERVE)
        if not r.ok:
            rep.unknown('run_server', r.why, f['span'])
            continue
        cos = {e.args[0] for e in r.evs if e.kind == 'io' and e.name == 'spawn'}
        if len(cos) != 1:
            rep.unknown('handler', '%d kinds of tasks are started' % len(cos), f['span'])
            continue
        co = cos.pop()
        if co.op != 'agg' or not isinstance(co.a[0], tuple) or co.a[0][0] != 'coroutine':
            rep.unknown('handler', show(co)[:100], f['span'])
            continue
        g = P.fns[co.a[0][1]]
        h = ctx.run(g, 'bin', args=[co, mk('zst', 'resume')], extra=CUTS.SERVE)
        if not h.ok:
            rep.unknown('handler', h.why, f['span'])
            continue
        h.server = r
        return h, f
    return None, None
