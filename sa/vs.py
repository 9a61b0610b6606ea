"""Reading the summaries of the validation functions: members of comprehensions, path facts, signature facts."""
from base import *

VE_OK, VE_UNSUP, VE_INVALID = 0, 1, 2


def no_phi_guard(r, c, skip=('sigok', 'vsig', 'vdk')):
    """Whether the conjunction depends on nothing carried around a loop (other than inside the given atoms)."""
    for t in c.d:
        if t.op in skip or t.op == 'done':
            continue
        if any(x in r.I.phis and not seq_phi(r, x) for x in subterms(t)):
            return False
    return True


def seq_phi(r, x):
    """A loop value that is a growing list (it carries no outcome by itself)."""
    return any(v is NIL or v.op in ('push', 'ext') and v.a[0] is x for v, _ in r.I.phis[x])


def as_comp(r, t):
    """(base sequence, [(conditions, value)], bound variable) of a filtered/mapped copy of a sequence, or None."""
    if t.op == 'comp':
        b = t.a[0]
        s = b.a[0] if b.op == 'over' else None
        if s is None:
            return None
        return s, [(dict(d), v) for d, v in t.a[1]], t.a[2]
    inc = r.I.phis.get(t)
    if inc is None or t.op == 'seqdrv':
        return None
    alts, s, bv, base = [], None, None, None
    for v, fs in inc:
        if v is NIL:
            base = fs
        elif v.op == 'push' and v.a[0] is t:
            x = v.a[1]
            ix = [y for y in subterms(x) if y.op == 'idx' and not any(z in r.I.phis for z in subterms(y))]
            if not ix:
                return None
            y = max(ix, key=lambda q: len(list(subterms(q))))
            if s is None:
                s, bv = y.a[0], y.a[1]
            elif (s, bv) != (y.a[0], y.a[1]):
                return None
            alts.append((x, fs))
        elif v is t:
            continue
        else:
            return None
    if s is None or base is None:
        return None
    out = []
    for x, fs in alts:
        for c in fs:
            out.append(({k: z for k, z in c.d.items() if any(q is bv for q in subterms(k)) and not _bound(k, s, bv)}, x))
    return s, out, bv


def _bound(k, s, bv):
    """The fact that the bound variable is within its sequence."""
    return k.op == 'le0' and set(a for a in lin_parts(k.a[0])[1]) <= {seqlen(s), bv}


def entails(c, t, s):
    return isubset(F.cset(c, t), s)


def member(r, c, item, seq):
    """item is an element of seq under conjunction c: True, False (provably not shown), None."""
    if item.op == 'idx' and item.a[0] is seq:
        return True
    m = as_comp(r, seq)
    if m is None:
        return None
    s, alts, bv = m
    for x in subterms(item):
        if x.op == 'idx' and x.a[0] is s:
            for d, v in alts:
                if subst(v, {bv: x.a[1]}) is item and all(entails(c, subst(k, {bv: x.a[1]}), z) for k, z in d.items()):
                    return True
    return False


def filtered(r, t):
    """The sequence t takes its elements from, unchanged (through filters), or t itself."""
    while True:
        m = as_comp(r, t) if t.op == 'comp' else None
        if m is None:
            if t.op in ('sorted', 'dedup', 'rev') :
                t = t.a[0]
                continue
            return t
        s, alts, bv = m
        if all(v is idx(s, bv) for _, v in alts):
            t = s
        else:
            return t


def sigoks(c):
    return [t for t, s in c.d.items() if t.op == 'sigok' and s.single() == 1]


def keybase(t):
    """The DNSKEY record whose public key a key term is made of."""
    ks = [x.a[0] for x in subterms(t) if x.op == 'fld' and x.a[1] == 'pubkey']
    return ks[0] if ks and all(k is ks[0] for k in ks) else None


def facts_on(c, t):
    return [(k, s) for k, s in c.d.items() if any(x is t for x in subterms(k))]


def flag_values(c, t, univ):
    """The values of t (over univ) that no fact on t alone excludes."""
    fs = []
    for k, s in facts_on(c, t):
        try:
            evalt(k, {t: univ[0]})
            fs.append((k, s))
        except NoVal:
            pass
    return [v for v in univ if all(s.has(evalt(k, {t: v})) for k, s in fs)]


def same(c, a, b):
    """Integer or structural equality known under c."""
    if a is b:
        return True
    t = eqi(a, b)
    if F.cset(c, t).single() == 1:
        return True
    t = eq(a, b)
    return F.cset(c, t).single() == 1


def stream_run(ctx, rep):
    fs = rep.need('verify_rr_stream')
    if not fs:
        return None
    r = ctx.run(fs[0])
    if not r.ok:
        rep.unknown('verify_rr_stream', r.why, fs[0]['span'])
        return None
    if r.unmod():
        rep.unknown('verify_rr_stream', 'unmodelled %s' % sorted(r.unmod())[:3], fs[0]['span'])
        return None
    return r


def runs_of(ctx, rep, key, hard=True):
    """All instances of a private validation function, analysed."""
    fs = ctx.fns(key)
    if not fs:
        rep.unknown('anchor:' + key, 'no function %s' % key)
    out = []
    for f in fs:
        r = ctx.run(f)
        if not r.ok or r.unmod():
            rep.unknown(key, r.why or 'unmodelled %s' % sorted(r.unmod())[:3], f['span'])
        else:
            out.append(r)
    return out


def events(r, kind):
    return [e for e in r.evs if e.kind == kind]


def name_of(t):
    return t.a[0] if t.op == 'fld' and t.a[1] == '0' else t


def _witness(t):
    """(alternatives, base) of an exists atom: each alternative a dict term -> set."""
    return [dict(d) for d in t.a[1]], (t.a[0].a[0] if t.a[0].op == 'over' else None)


def admissions(r, K):
    """How an element can have got into sequence K: list of (item, facts dict), with one witness filled in for every
    known existential; None when K is not built in a way that is understood."""
    out = []
    m = as_comp(r, K) if K.op == 'comp' else None
    if m is not None:
        for d, v in m[1]:
            out.extend((v, e) for e in expand(d))
        return out
    if K.op == 'arr':
        return None
    bases, adds = growth(r, K)
    if any(b is not NIL for b in bases) or not adds:
        return None
    for kind, item, fs in adds:
        if kind != 'push' or fs is None:
            return None
        for c in fs:
            out.extend((item, e) for e in expand(c.d))
    return out


def expand(d):
    """Conjunctions with known existentials replaced by each alternative of their witness."""
    cur = [dict(d)]
    for t, s in d.items():
        if t.op == 'exists' and s.single() == 1:
            alts, b = _witness(t)
            cur = [dict(c, **{}) | a for c in cur for a in alts] if len(cur) * max(1, len(alts)) <= 64 else cur
    return cur


def dset(d, t):
    """Over-approximation of t under the facts of dict d."""
    if t in d:
        return d[t]
    return rng(t)


def dsame(d, a, b):
    if a is b:
        return True
    return any(dset(d, x).single() == 1 for x in (eqi(a, b), eq(a, b)) if not is_num(x))


def loop_done(r, c, M):
    """The end-of-iteration facts of the loop that builds phi M, on a path with facts c."""
    if M.op != 'phi':
        return []
    blocks = r.I.loops.get((M.a[0], M.a[1]), ((), ()))[0]
    return [t for t, q in c.d.items() if t.op == 'done' and q.single() == 1 and t.a[2].op == 'site' and t.a[2].a[0] is M.a[0] and t.a[2].a[1] in blocks]


def ways_out(r, key):
    """The ways out of a loop (context, head): list of (kind, states, rets): kind 'done' when its iterator is at its end,
    'err' when the function can only fail from there, 'on' otherwise; rets is what the rest of the function returns."""
    I = r.I
    blocks = I.loops[key][0]
    inner = set()
    for k, (bl, _) in I.loops.items():
        if k[0] is key[0] and k[1] != key[1] and k[1] in blocks and key[1] not in bl:
            inner |= set(bl)

    def ended(c):
        return any(t.op == 'done' and z.single() == 1 and t.a[2].op == 'site' and t.a[2].a[0] is key[0] and t.a[2].a[1] in blocks
                   and t.a[2].a[1] not in inner for t, z in c.d.items())
    out = []
    for b, sc, states in I.exits.get(key, ()):
        todo = [s for s in states if not all(ended(c) for c in s.facts)]
        if len(todo) < len(states):
            out.append(('done', [s for s in states if s not in todo], None))
        if todo:
            rets = I.resume(key[0], sc, todo)
            around = any(k[0] is key[0] and k[1] != key[1] and sc in I.loops[k][0] and key[1] in I.loops[k][0] for k in I.loops)
            if rets or around:
                out.append(('err' if rets and not around and all(is_err(v) for _, v in rets) else 'on', todo, rets))
    return out


def early(r, M):
    """Ways out of the loop that builds phi M, other than by exhaustion or failure: None if the loop is not known or not
    driven by an iterator, else the list of their states."""
    key = (M.a[0], M.a[1])
    if key not in r.I.loops:
        return None
    ways = ways_out(r, key)
    if not any(k == 'done' for k, _, _ in ways):
        return None
    return [s for k, ss, _ in ways if k == 'on' for s in ss]


def uncopied(r, t):
    """t with a list built by a loop that copies another item by item taken for the two put together."""
    if t.op == 'ext':
        a, b = uncopied(r, t.a[0]), uncopied(r, t.a[1])
        return t if a is t.a[0] and b is t.a[1] else ext(a, b)
    if t.op == 'ite':
        return mk('ite', t.a[0], uncopied(r, t.a[1]), uncopied(r, t.a[2]))
    if t not in r.I.phis:
        return t
    vals = []
    for v, _ in r.I.phis[t]:
        if v is not t and v not in vals:
            vals.append(v)
    steps = [v for v in vals if v.op in ('ext', 'push') and v.a[0] is t]
    ents = [v for v in vals if v not in steps]
    if len(steps) != 1 or len(ents) != 1 or t in subterms(ents[0]):
        return t
    x = steps[0].a[1]
    if x.op == 'be' and x.a[0] == 8:
        x = x.a[1]
    if x.op != 'idx' or x.a[1].op != 'elem':
        return t
    S, D = x.a[0], x.a[1].a[0]
    if not (D.op == 'range' and D.a[0] is num(0) and D.a[1] is seqlen(S)) or S is t or any(y.op == 'phi' and same_loop(y, t) for y in subterms(S)):
        return t
    e = early(r, t)
    return ext(uncopied(r, ents[0]), S) if e == [] else t


def same_loop(a, b):
    return a.a[0] is b.a[0] and a.a[1] == b.a[1]


def early_all(r, M):
    """As early, for every loop the carried value goes through."""
    out = []
    for key, (blocks, _) in r.I.loops.items():
        if key[0] is M.a[0] and M.a[1] in blocks:
            ways = ways_out(r, key)
            if any(k == 'done' for k, _, _ in ways):
                out += [s for k, ss, _ in ways if k == 'on' for s in ss]
    return out


def sources(r, t):
    """(other bases, [(item, facts)]) of the elements a list can hold, through loops, removals, filters and sorting."""
    bases, adds, seen = [], [], set()

    def go(x, fs):
        if x is NIL or (x.op == 'arr' and not x.a[0]):
            return
        if x.op == 'push':
            adds.append((x.a[1], fs))
            return go(x.a[0], fs)
        if x.op in ('slice', 'sorted', 'dedup', 'rev'):
            return go(x.a[0], fs)
        if x.op == 'ext':
            go(x.a[0], fs)
            return go(x.a[1], fs)
        if x.op == 'ite':
            go(x.a[1], fs)
            return go(x.a[2], fs)
        if x.op == 'comp':
            y = filtered(r, x)
            if y is not x:
                return go(y, fs)
        inc = r.I.phis.get(x)
        if inc is not None:
            if x.id not in seen:
                seen.add(x.id)
                for v, f in inc:
                    go(v, f)
            return
        if x.op == 'arr':
            adds.extend((y, fs) for y in x.a[0])
            return
        if x not in bases:
            bases.append(x)
    go(t, None)
    return bases, adds


def comp_zone(r, R, variant, extra=()):
    """The name all elements of R (a filtered copy of the supplied records, of one record type) have: (name term,
    complete?, detail).  complete: True if R is every supplied record of that type and name; False if fewer or others."""
    m = as_comp(r, R)
    if m is None:
        return None, None, show(R)[:160]
    s, alts, bv = m
    if s is not r.p(0):
        return None, None, 'taken from %s' % show(s)[:100]
    if len(alts) != 1:
        return None, None, '%d ways into the set' % len(alts)
    d, v = alts[0]
    x = idx(s, bv)
    nm = mk('fld', mk('rrname', x), '0')
    z, rest = None, []
    for k, q in d.items():
        if k.op == 'eq' and q.single() == 1 and any(y is nm for y in k.a) and z is None:
            z = next(y for y in k.a if y is not nm)
        elif k is mk('discr', x):
            i = next((i for i, a in enumerate(r.P.adt[adt_path(r.P, 'rr::RR')]['v']) if a['n'] == variant), None)
            if q.single() != i:
                rest.append((k, q))
        else:
            rest.append((k, q))
    if z is None:
        return None, False, 'records of any owner enter the set'
    rest = [(k, q) for k, q in rest if k not in extra]
    if rest:
        return z, (None if any(r.imprecise(k) is not None or any(y in r.I.phis for y in subterms(k)) for k, _ in rest) else False), 'the set is further restricted by %s' % ', '.join(show(k)[:100] for k, _ in rest)
    return z, True, 'all supplied records of that type and owner'


NAMEPAIRS = [(a, b) for a in (b'.', b'com.', b'example.com.', b'notexample.com.', b'a.example.com.', b'b.example.com.', b'x.y.z.a.example.com.', b'*.a.example.com.', b'z.a.example.com.')
             for b in (b'.', b'com.', b'example.com.', b'notexample.com.', b'a.example.com.', b'b.example.com.', b'x.y.z.a.example.com.', b'*.a.example.com.', b'z.a.example.com.')]


def onpair(atoms, x, A, y, B):
    """Whether the atoms ((term, set) pairs) all hold when x is the name A and y the name B (x, y: a Name or its text);
    NoVal if they say something of anything else."""
    env = {}
    for v, n in ((x, A), (y, B)):
        for z in (v, mk('fld', v, '0')):
            env[z] = n
            env[mk('nlabels', z)] = 0 if n == b'.' else n.count(b'.')
    def inz(n, z):
        return z == b'.' or n == z or n.endswith(b'.' + z)
    env[mk('inzone', mk('fld', x, '0'), mk('fld', y, '0'))] = env[mk('inzone', x, y)] = int(inz(A, B))
    env[mk('inzone', mk('fld', y, '0'), mk('fld', x, '0'))] = env[mk('inzone', y, x)] = int(inz(B, A))
    for t, q in atoms:
        try:
            if not q.has(int(evalt(t, env))):
                return False
        except NoSlice:
            return False
        except (TypeError, ValueError, IndexError):
            raise NoVal()
    return True


def othername(alts, x, y):
    """A pair of different names (for x and y) for which one of the alternatives holds, or None."""
    for d in alts:
        for A, B in NAMEPAIRS:
            if A != B:
                try:
                    if onpair(d, x, A, y, B):
                        return A.decode(), B.decode()
                except NoVal:
                    break
    return None
