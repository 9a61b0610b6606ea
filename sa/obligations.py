"""Panic obligations of everything reachable from a set of entry points (C14, C15)."""
from witness import *
import jsonfa
from engine import Ev
from collections import Counter

# functions of core/alloc that panic on some argument and have no model: a call leaves the obligation open
SKIP = ()


def own(f):
    return f.get('local') and 'body' in f and '{' not in f['path'] and not f.get('derived') and not f.get('shim')


def roots(P):
    K = set(CUTS.cuts(''))
    return [f for f in P.fns if own(f) and (f['pub'] or f.get('trait') or shortkey(f['path']) in K)]


def callees(P, f):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get('i'), int) and 'd' in x:
                out.add(x['i'])
            if isinstance(x.get('t'), int):
                t = P.types[x['t']]
                if isinstance(t.get('i'), int) and t['k'] in ('fndef', 'closure', 'coroutine'):
                    out.add(t['i'])
            if isinstance(x.get('fn'), int):
                out.add(x['fn'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) >= 3 and x[0] == 'agg' and isinstance(x[1], list) and x[1] and x[1][0] in ('closure', 'coroutine'):
                out.add(x[1][2])
            for v in x:
                walk(v)
    for bb in f['body']['bbs']:
        walk(bb['s'])
        walk(bb['t'])
    # what the argument types of generic library calls bring in (closures, trait methods) is named by the instances
    for l in f['body']['locals']:
        t = P.types[l]
        if isinstance(t.get('i'), int) and t['k'] in ('fndef', 'closure', 'coroutine'):
            out.add(t['i'])
    return out


def reach(P, starts):
    byid = {f['id']: f for f in P.fns}
    seen, todo = set(), [f['id'] for f in starts]
    while todo:
        i = todo.pop()
        if i in seen or i not in byid:
            continue
        seen.add(i)
        if 'body' in byid[i]:
            todo += callees(P, byid[i])
    return seen


# what holds of the private state of the crate's own types between calls (QueryBuf: shown by C28's rule; the counters of
# ProofBuilder count queries handed out and those still open): alternatives of constraints on the fields
def states(p):
    f = lambda n: mk('fld', p, n)
    return {
        'query::QueryBuf': (('len', 'heap_buf', 'buf'), [[(le0(sub(f('len'), num(2048))), 1)],
                                                         [(le0(sub(num(2049), f('len'))), 1), (mk('eq0', sub(f('len'), mk('len', f('heap_buf')))), 1)]]),
        'query::ProofBuilder': (('pending_queries', 'queries_made', 'proof', 'min_ttl', 'dnskeys_requested'),
                                [[(le0(sub(f('pending_queries'), f('queries_made'))), 1), (le0(sub(num(1), f('queries_made'))), 1)]]),
    }


def stated(r, conj, good):
    """The path for each shape the private state of its first parameter can have; None for other functions, () when unknown."""
    b = r.f['body']
    if not b['argc']:
        return None
    t = r.P.types[r.P.deref_ty(b['locals'][1])]
    p = mk('param', 'p0')
    for k, (known_, alts) in states(p).items():
        if t.get('p', '').endswith(k):
            have = {f[0] for f in r.P.adt[t['p']]['v'][0]['f']}
            used = {y.a[1].split('.')[0] for x in list(conj.d) + [good] for y in subterms(x) if y.op == 'fld' and y.a[0] is p}
            if not used <= set(known_) or k.endswith('QueryBuf') and not set(known_) <= have:
                return ()
            out = []
            for alt in alts:
                cs = [conj]
                for x, v in alt:
                    cs = [z for c in cs for z in F.assume(c, x, iset(v))]
                out += [(c, good) for c in cs]
            return out
    return None


def open_paths(ctx, r, pr, recs, e, good):
    """The paths to an obligation on which it is not proved, refined by what is known of the values."""
    for c in e.facts:
        if pr.refuted(c, [(good, 0)]):
            continue
        cs = recs.cases(r, c, good)
        if cs is None:
            cs = stated(r, c, good)
            if cs == ():
                yield None, None
                continue
        for c2, g2 in [(c, good)] if cs is None else cs:
            if not pr.refuted(c2, [(g2, 0)]):
                yield c2, g2


def turns(ctx, r, cfg):
    """Functions that call themselves under r: [(function, parameter -> the numbers it can be given)]."""
    out = []
    for name in {e.name for e in r.evs if e.kind == 'rec'}:
        for g in [f for f in ctx.prog(cfg).fns if f['full'] == name and 'body' in f]:
            r2 = ctx.run(g, cfg)
            first = [k[2] for k in r.I.memo if k[0] == g['id']]
            vals = {}
            for i in range(g['body']['argc']):
                p = r2.arg(i)
                if p.op != 'param' or r2.P.types[g['body']['locals'][i + 1]]['k'] != 'int' or any(not is_num(a[i]) for a in first):
                    continue
                seen, todo = set(), [a[i].a[0] for a in first]
                try:
                    while todo and len(seen) < 5000:
                        v = todo.pop()
                        if v in seen or not rng(p).has(v):
                            continue
                        seen.add(v)
                        todo += [evalt(e.args[i], {p: v}) for e in r2.evs if e.kind == 'rec' and e.name == name and any(F.cset(c, p).has(v) for c in e.facts)]
                    if not todo:
                        vals[p] = iset(*sorted(seen))
                except NoVal:
                    pass
            out.append((g, vals))
    return out


def narrowed(facts, vals):
    for p, z in vals.items():
        facts = [c2 for c in facts for c2 in F.assume(c, p, z)]
    return facts


def judge(ctx, rep, starts, mine, cfg='lib', floor=0):
    P = ctx.prog(cfg)
    T = Types(P)
    recs = Records(ctx, cfg, T, jsonfa.Text)
    seen = reach(P, starts)
    rs = roots(P)
    names = {f['full'] for f in rs}
    todo = [f for f in rs if f['id'] in seen]
    n = Counter()
    # a function that calls itself is also analysed for the arguments it passes on
    again = {}
    for f in todo:
        for g, vals in turns(ctx, ctx.run(f, cfg), cfg):
            if g not in todo:
                again[g['id']] = vals
                todo.append(g)
    for f in todo:
        r = ctx.run(f, cfg)
        if not r.ok:
            rep.unknown('analysis:' + f['full'], r.why, f['span'])
            continue
        vals = again.get(f['id'])
        pr = Prover(r, T, jsonfa.Text(r))
        wi = Witness(pr)
        t0 = time.time()
        for e in r.evs:
            if e.kind == 'unmodelled' and e.fn.split('::{closure')[0] not in names - {f['full']} and panicky(e.name):
                rep.unknown('call:%s:%s' % (e.fn, e.name), 'a library call that may panic has no model', e.span)
            if e.kind not in ('assert', 'panic'):
                continue
            if e.fn.split('::{closure')[0] in names - {f['full']}:
                continue
            good = e.args[0] if e.kind == 'assert' else num(0)
            key = '%s:%s' % (site(f, e), e.name)
            if is_num(good) and good.a[0]:
                n['constant'] += 1
                continue
            left = None
            found = None
            if vals is not None:
                e = Ev(e.kind, e.name, e.args, tuple(narrowed(e.facts, vals)), e.span, e.fn, e.ctx, e.site, e.data)
            for c, g in open_paths(ctx, r, pr, recs, e, good):
                left = True
                if vals is not None and (c is None or not {y for y in subterms(g) if y.op == 'param'} <= set(vals)):
                    continue
                if c is not None and found is None and time.time() - t0 < 60:
                    found = wi.find(e, c, g)
                if found is not None:
                    break
            if found is not None:
                rep.bad(key, '%s in %s fails for %s' % (what(e), e.fn.split('::')[-1], found), e.span)
            elif left:
                rep.unknown(key, '%s is not decided' % what(e), e.span)
                n['open'] += 1
            else:
                rep.good(key, '%s cannot fail' % what(e), e.span)
                n['proved'] += 1
    rep.floor('panic obligations', n['proved'], floor, hard=False)
    rep.counts = dict(n)
    return todo


def site(f, e):
    return f['full'] + ('' if e.fn == f['full'] else '>' + e.fn)


def what(e):
    if e.kind == 'panic':
        m = e.args[0].a[0].decode('utf8', 'replace') if e.args and e.args[0].op == 'bytes' else e.name
        return 'the panic "%s"' % m[:80]
    return 'the check "%s"' % e.name


def panicky(name):
    return any(x in name for x in ('::unwrap', '::expect', 'Index>::index', 'IndexMut', '::split_at', '::copy_from_slice', '::swap', '::remove', '::insert', '::drain', '::split_off', '::chunks', '::windows', '::rotate', 'from_str_radix', '::abs_diff'))


def entries(ctx, keys, cfg='lib'):
    out = []
    for k in keys:
        out += ctx.fns(k, cfg)
    return out
