"""A usable key, DS, signature or denial record is never passed over.

The counterpart of C37.  For every loop of the validation functions (and of their helpers, run inline) that goes
through supplied keys, DS records, signatures or denial records, the facts under which a candidate is passed over (a
turn of the loop that leaves everything it carries as it was) are compared with the facts under which one is used (the
loop is left for it, or something is kept of it).  A turn is wrong when all that tells it from a use is a trait of the
candidate that has no bearing on whether it can serve: a length or bit of its contents, its name taken alone, a TTL, an
iteration count within the limit, the types listed at a name.  The same holds of a trait that every candidate looked at
has (a filter).  The trait must be one that usable candidates both have and lack: sample values of the field, all of
them usable, are put into the fact's closed form.
"""
RULE = 'facts of the turns of each candidate loop that pass a candidate over, against those under which one is used'
from vs import *
from rules import c37
from terms import T, iunion, isubset

ZONES = (b'.', b'com.', b'example.com.', b'a.example.com.', b'*.example.com.', b'*.a.example.org.', b'x.y.z.a.b.c.d.example.net.',
         b'a-rather-long-label-of-some-sixty-characters-to-fill-this-name.another-rather-long-label-of-some-sixty-characters.example.')
SAMPLES = {
    'DnsKey': {'name': ZONES, 'flags': (256, 257, 384, 385, 0x8100, 0x8101), 'pubkey': ('len', (32, 64, 96, 68, 130, 132, 260, 261, 516, 1028))},
    'DS': {'name': ZONES[1:], 'digest': ('len', (20, 32))},
    'RRSig': {'orig_ttl': (0, 1, 60, 3600, 86400, 0x7fffffff), 'signature': ('len', (64, 96, 128, 256, 512)),
              'inception': (0, 1, 0x40000000, 0x65000000, 0xffffffff), 'expiration': (0, 1, 0x40000000, 0x65000000, 0xffffffff)},
    'NSec': {'name': ZONES[1:]},
    'NSec3': {'hash_iterations': (0, 1, 2, 5, 10, 50, 100, 150, 151, 500, 2499, 2500), 'salt': ('len', (0, 1, 2, 4, 8, 16, 32, 64, 255))},
}


def check(ctx, rep):
    n = 0
    for key in ('verify_rrsig', 'verify_dnskeys'):
        for r in runs_of(ctx, rep, key):
            n += loops(rep, r, key)
    r = stream_run(ctx, rep)
    if r:
        n += loops(rep, r, 'verify_rr_stream')
    rep.floor('turns of candidate loops', n, 3, hard=False)


def loops(rep, r, key):
    n, w = 0, r.f['span']
    for k in list(r.I.loops):
        blocks = r.I.loops[k][0]
        inner = set()
        for k2, (bl, _) in r.I.loops.items():
            if k2[0] is k[0] and k2[1] != k[1] and k2[1] in blocks and k[1] not in bl:
                inner |= set(bl)

        def here(x):
            s = c37.site_of(x)
            return s is not None and s.a[0] is k[0] and s.a[1] in blocks and s.a[1] not in inner

        def of(t):
            return any(here(x) for x in subterms(t))
        passed, used = [], []
        carried = [p for p in r.I.phis if p.op == 'phi' and p.a[0] is k[0] and p.a[1] == k[1]]
        for s in r.I.loops[k][1]:
            (used if changes(r, s, carried) else passed).extend(c for c in s.facts if any(of(t) for t in c.d))
        for kind, states, rets in ways_out(r, k):
            if kind != 'done':
                used += [c for s in states for c in s.facts if any(of(t) for t in c.d)]
        kinds = {candidate(t, of) for c in passed + used for t in c.d if of(t)} - {None}
        if len(kinds) != 1 or not used:
            continue
        what = kinds.pop()
        # what every candidate looked at has
        for t, q in common(passed + used, of):
            n += 1
            if stray(what, t, q, here):
                rep.bad('filter:' + key, 'only those %s records are looked at of which %s is %s' % (what, show(t)[:120], q), w)
        for c in passed:
            n += 1
            odd = [(t, q) for t, q in c.d.items() if of(t) and stray(what, t, q, here) or what == 'DS' and stray('DnsKey', t, q, drawn)]
            rest = [(t, q) for t, q in c.d.items() if of(t) and not any(t is o for o, _ in odd)]
            if odd and any(all(isubset(F.cset(u, t), q) for t, q in rest) and not any(isubset(F.cset(u, t), q) for t, q in odd) for u in used):
                rep.bad('passed:' + key, 'a %s record that could serve is passed over when %s' % (what, ' and '.join('%s is %s' % (show(t)[:120], q) for t, q in odd)), w)
            else:
                rep.good('passed:' + key, 'passed over for no trait without bearing on its use', w)
            for t, q in c.d.items():
                pairs(rep, key, t, q, of, w)
    return n


def changes(r, s, carried):
    """The turn of the loop that ends in state s keeps something: a list, flag or value carried round is another."""
    for p in carried:
        if p.a[4]:
            v = None
            for x, fs in r.I.phis[p]:
                if x is not p and x.op in ('push', 'append', 'cat'):
                    v = x
            if v is not None:
                return True
            continue
        v = s.store.get(p.a[3])
        if v is not None and v is not p and v.op not in ('lin', 'int'):
            return True
        if v is not None and v.op == 'int' and v is not p:
            return True
    return False


def candidate(t, of):
    """Which kind of record the atom's term looks at."""
    for x in subterms(t):
        if x.op == 'vsig' and of(x.a[0]):
            return 'RRSig'
        if x.op == 'keytag' and of(x):
            return 'DnsKey'
        if x.op == 'fld' and of(x):
            f = str(x.a[1])
            if f.startswith('NSec3.'):
                return 'NSec3'
            if f.startswith('NSec.'):
                return 'NSec'
            if f in ('digest', 'digest_type'):
                return 'DS'
            if f in ('protocol', 'pubkey'):
                return 'DnsKey'
            if f in ('hash_iterations', 'hash_algo', 'salt', 'next_name_hash'):
                return 'NSec3'
            if f in ('next_name',):
                return 'NSec'
    return None


def common(cs, of):
    """Atoms about the candidate that all the conjunctions have."""
    if not cs:
        return
    for t in cs[0].d:
        if of(t):
            qs = [c.d.get(t) for c in cs]
            if all(q is not None for q in qs):
                u = qs[0]
                for q in qs[1:]:
                    u = iunion(u, q)
                yield t, u


def stray(what, t, q, here):
    """The atom says of the candidate something that some usable candidates fulfil and others do not."""
    for f, vals in SAMPLES[what].items():
        ts = [x for x in subterms(t) if isfield(x, f) and any(here(y) for y in subterms(x))]
        if not ts:
            continue
        x = ts[0]
        ln = None
        if vals[0] == 'len':
            ln, vals = mk('len', x), vals[1]
        res = set()
        for v in vals:
            env = {ln: v} if ln is not None else {x: v}
            if ln is not None:
                env[x] = b'\x03' * v
            if f == 'name':
                env[mk('nlabels', x)] = v.count(b'.') if v != b'.' else 0
            try:
                if ln is not None and not only(t, ln, x):
                    raise NoVal()
                res.add(bool(q.has(int(evalt(t, env)))))
            except (NoVal, TypeError, ValueError, IndexError):
                res = None
                break
        if res is not None and len(res) == 2:
            return True
    if what in ('NSec', 'NSec3'):
        # which types a name has
        for x in subterms(t):
            if x.op == 'idx' and x.a[1].op == 'int' and any(isfield(y, 'types') for y in subterms(x.a[0])):
                i = x.a[1].a[0]
                if i == 5:
                    return False
                if any(here(y) for y in subterms(x)):
                    try:
                        rs = {bool(q.has(int(evalt(t, {x: v})))) for v in range(256)}
                    except (NoVal, TypeError):
                        return False
                    return len(rs) == 2
    return False


def isfield(x, f):
    if f == 'name':
        return x.op == 'fld' and x.a[1] == '0' and (x.a[0].op == 'rrname' or x.a[0].op == 'fld' and x.a[0].a[1] == 'name')
    return x.op == 'fld' and (x.a[1] == f or str(x.a[1]).endswith('.' + f))


def drawn(x):
    """An element of any loop."""
    return c37.site_of(x) is not None


def only(t, ln, x):
    """Nothing of the bytes x but their number is looked at."""
    def go(y):
        if y is ln:
            return True
        if y is x:
            return False
        return all(go(z) for z in y.a if isinstance(z, T))
    return go(t)


def pairs(rep, key, t, q, of, w):
    """A record's parameters count as hashed already only where both of them are in the list of those hashed."""
    if t.op != 'exists' or q.single() != 1 or not any(of(x) for x in c37.exterms(t)):
        return
    for alt in t.a[1]:
        fs, other = set(), False
        for a, z in alt:
            g = {str(x.a[1]).split('.')[-1] for x in subterms(a) if x.op == 'fld'} & {'hash_iterations', 'salt'}
            if len(g) == 1 and a.op in ('eq', 'eq0') and z.single() == 1:
                fs |= g
            else:
                other = True
        if not fs:
            continue
        if len(fs) == 1 and not other:
            rep.bad('pairs:' + key, 'the parameters of an NSEC3 record are taken as hashed when only the %s was met before' % fs.pop(), w)
        elif len(fs) == 2:
            rep.good('pairs:' + key, 'parameters count as hashed only when both were met', w)
