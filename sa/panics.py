"""Panic obligations: refutation of the failing branch and concrete failing points.

Every assertion, bounds check, overflow check, slice bound, unwrap and explicit panic the compiler left in a body is an
obligation with the conditions of its path.  An obligation holds when path conditions, the negated obligation and what is
always true of the values involved (ranges of types, lengths of arrays and records, validity of names, counts of loop
iterations) are contradictory.  Otherwise a parameter assignment is searched for at which all conditions of the path
definitely hold and the obligation definitely fails.
"""
from points import *
import facts as F

MEM = 1 << 47           # no slice is longer than the address space
WORDS = ('usize', 'isize', 'u64', 'i64')


class Types:
    """What is always true of record fields, by field name (names are unique enough in this crate: conflicting uses are dropped)."""

    def __init__(self, P):
        self.P = P
        self.names, self.arrays, self.vecs, self.ints = set(), {}, {}, {}
        self.bounds = {}
        drop = set()
        for p, a in P.adt.items():
            if not p.split('::')[0] in ('dnssec_prover', 'http_proof_gen') or a['k'] != 'struct':
                continue
            for f in a['v'][0]['f']:
                t = P.types[f[1]]
                n = t.get('p') or t.get('n') or ''
                if f[0].isdigit():
                    continue
                k = ('name',) if n.endswith('rr::Name') else ('array', t['len']) if t['k'] == 'array' else ('vec',) if n == 'std::vec::Vec' else ('int', n) if t['k'] == 'int' else ('other', n)
                old = self.ints.get(f[0])
                if old is not None and old != k:
                    drop.add(f[0])
                self.ints[f[0]] = k
        self.kind = {k: v for k, v in self.ints.items() if k not in drop}

    def field(self, t):
        """Kind of a field term, looking at its last name only."""
        if t.op != 'fld' or not isinstance(t.a[1], str):
            return None
        return self.kind.get(t.a[1].split('.')[-1])


class Prover:
    def __init__(self, r, types, text):
        self.r, self.P, self.T, self.text = r, r.P, types, text
        self.memo = {}
        self.busy = set()

    # ------------------------------------------------------------ what is always true
    def is_name(self, t):
        while t.op in ('lower',):
            t = t.a[0]
        if self.text.is_name_text(t):
            return True
        if t.op == 'tnl':
            return True
        return t.op == 'fld' and t.a[1] == '0' and (self.T.field(t.a[0]) == ('name',) or self.named(t.a[0]))

    def named(self, t):
        x = self.text.type_of(t)
        return x is not None and x.get('p', '').endswith('rr::Name')

    def seq_bounds(self, x):
        """(lo, hi) of the length of sequence x."""
        k = self.T.field(x)
        if k is not None and k[0] == 'array':
            return k[1], k[1]
        if x.op == 'fld' and x.a[1] == '0' and x.a[0].op == 'fld' and x.a[0].a[1].split('.')[-1] == 'types':
            return 8192, 8192
        t = self.text.type_of(x)
        if t is not None and t['k'] == 'array':
            return t['len'], t['len']
        if t is not None and t.get('p', '').endswith('NSecTypeMask'):
            return 8192, 8192
        if k == ('vec',):
            return 0, self.T.bounds.get(x.a[1].split('.')[-1], MEM)
        if self.is_name(x):
            return 1, 255
        if x.op == 'wname':
            return 1, 256
        if x.op == 'wbitmap':
            return 0, 256 * 34
        if x.op == 'b32dec':
            return 0, MEM
        if x.op == 'rdata_lp':
            return 2, 65537
        if x.op == 'chunk':
            return 0, x.a[1].a[0] if is_num(x.a[1]) else MEM
        if x.op in ('part', 'slice', 'lower', 'upper'):
            return 0, self.seq_bounds(x.a[1] if False else x.a[0])[1] if x.op != 'part' else self.part_hi(x)
        return 0, MEM

    def part_hi(self, x):
        s = x.a[0]
        while s.op in ('split', 'over', 'seqit') and len(s.a) > 1:
            s = s.a[1]
        return self.seq_bounds(s)[1]

    def count(self, D, conj):
        """Upper bound of the number of elements of an iteration source."""
        if D.op == 'range':
            h, l = self.hi(D.a[1], conj), self.lo(D.a[0], conj)
            return None if h is None or l is None else max(0, h - l)
        if D.op == 'chunks':
            h = self.hi(seqlen(D.a[0]), conj)
            return None if h is None or not is_num(D.a[1]) or not D.a[1].a[0] else -(-h // D.a[1].a[0])
        if D.op == 'split':
            return self.part_hi(mk('part', D, num(0))) + 1
        if D.op in ('over', 'seqit', 'opaqueit'):
            h = self.hi(seqlen(D.a[0]), conj)
            return MEM if h is None else h
        return MEM

    def hi(self, t, conj=None):
        return self.bound(t, conj, 1)

    def lo(self, t, conj=None):
        return self.bound(t, conj, -1)

    def bound(self, t, conj, sg):
        """Interval bound of an integer term."""
        c, p = lin_parts(t)
        tot = c
        for k, v in p.items():
            b = self.atom(k, conj, sg if v > 0 else -sg)
            if b is None:
                return None
            tot += v * b
        return tot

    def atom(self, k, conj, sg):
        s = rng(k)
        if conj is not None:
            s = iinter(s, F.cset(conj, k))
        b = s.hi() if sg > 0 else s.lo()
        x = None
        o = k.op
        if o == 'len':
            x = self.seqlen_bounds(k.a[0], conj)[0 if sg < 0 else 1]
        elif o == 'ite':
            l = [self.bound(y, conj, sg) for y in k.a[1:]]
            x = None if None in l else (max(l) if sg > 0 else min(l))
        elif o == 'div' and is_num(k.a[1]):
            y = self.bound(k.a[0], conj, sg)
            x = None if y is None else y // k.a[1].a[0]
        elif o == 'mod' and is_num(k.a[1]) and k.a[1].a[0] > 0:
            x = 0 if sg < 0 else k.a[1].a[0] - 1
            y = self.bound(k.a[0], conj, 1) if sg > 0 else None
            x = x if y is None else min(x, max(y, 0))
        elif o == 'elem':
            D = k.a[0]
            if D.op == 'range':
                y = self.bound(D.a[1 if sg > 0 else 0], conj, sg)
                x = None if y is None else y - (1 if sg > 0 else 0)
            elif sg > 0:
                y = self.count(D, conj)
                x = None if y is None else max(0, y - 1)
            else:
                x = 0
        elif o in ('min', 'max'):
            l = [self.bound(y, conj, sg) for y in k.a]
            if (o == 'min') == (sg > 0):
                l = [y for y in l if y is not None]
                x = (min(l) if sg > 0 else max(l)) if l else None
            else:
                x = None if None in l else (max(l) if sg > 0 else min(l))
        elif o == 'phi' or k in self.r.I.phis:
            x = self.phi(k, sg)
        elif o == 'fld':
            kk = self.T.field(k)
            if kk is not None and kk[0] == 'int' and kk[1] in ('u8', 'u16', 'u32'):
                x = 0 if sg < 0 else (1 << int(kk[1][1:])) - 1
            elif kk is not None and kk == ('int', 'usize'):
                # a counter kept in a record: no machine takes 2^60 steps
                x = 0 if sg < 0 else 1 << 60
        if x is None:
            return b
        return x if b is None else (min(b, x) if sg > 0 else max(b, x))

    def seqlen_bounds(self, x, conj):
        l, h = self.seq_bounds(x)
        if x in self.r.I.phis:
            a, b = self.seqphi(x)
            l, h = max(l, a), min(h, b)
        if x.op == 'chunk' and is_num(x.a[1]):
            n = x.a[1].a[0]
            a, b = self.seqlen_bounds(x.a[0], None)
            if a == b and n and a % n == 0:
                l = n
            elif x.a[2].op == 'elem':
                l = max(l, 1)
        return l, h

    # ------------------------------------------------------------ loops
    def loop_of(self, p):
        l = self.r.I.loops.get((p.a[0], p.a[1]))
        return l

    def trips(self, p):
        """Upper bound of the passes of p's loop."""
        l = self.loop_of(p)
        if l is None:
            return None
        blocks, states = l
        best = None
        for st in states:
            for c in st.facts:
                for t in list(c.d) + [v for v, _ in self.r.I.phis[p]]:
                    for e in subterms(t):
                        if e.op == 'elem' and e.a[1].op == 'site' and e.a[1].a[0] is p.a[0] and e.a[1].a[1] in blocks and not self.deeper(p, blocks, e):
                            n = self.count(e.a[0], None)
                            if n is not None and (best is None or n < best):
                                best = n
        return best

    def deeper(self, p, blocks, e):
        return any(cx is p.a[0] and h != p.a[1] and e.a[1].a[1] in b and len(b) < len(blocks) for (cx, h), (b, _) in self.r.I.loops.items())

    def split_phi(self, p):
        """(values on entry, increments on back edges with their conditions), or None."""
        base, inc = [], []
        for v, fs in self.r.I.phis[p]:
            c, q = lin_parts(v)
            if v is p:
                continue
            if q.get(p) == 1:
                q = dict(q)
                del q[p]
                inc.append((mklin(c, q), fs))
            elif any(y is p for y in subterms(v)):
                return None
            else:
                base.append((v, fs))
        return base, inc

    def phi(self, p, sg):
        key = (p, sg)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            self.memo[key] = x = self.phi1(p, sg)
            return x
        finally:
            self.busy.discard(key)

    def phi1(self, p, sg):
        sp = self.split_phi(p)
        if sp is None or not sp[0] or any(self.bound(v, None, sg) is None for v, _ in sp[0]):
            x = self.counter(p)
            # no machine makes 2^60 steps
            return None if x is None else x[0] if sg < 0 else x[1] + (1 << 60)
        bs = []
        for v, fs in sp[0]:
            l = [self.bound(v, c, sg) for c in fs or (None,)]
            if None in l:
                return None
            bs.append(max(l) if sg > 0 else min(l))
        b = max(bs) if sg > 0 else min(bs)
        ds = []
        for v, fs in sp[1]:
            l = [self.bound(v, c, sg) for c in fs or (None,)]
            if None in l:
                return None
            ds.append(max(l) if sg > 0 else min(l))
        d = max([0] + ds) if sg > 0 else min([0] + ds)
        if d == 0:
            return b
        g = self.guarded(p, sp[1]) if sg > 0 else None
        n = self.trips(p)
        if n is not None:
            x = b + n * d
        else:
            # one step per pass: no machine makes 2^60 passes
            x = b + (1 << 60) * d if sg > 0 and 0 < d <= 8 else None
        if g is not None:
            return max(b, g) if x is None else min(x, max(b, g))
        return x

    def guarded(self, p, incs):
        """A bound every step is checked to stay under."""
        best = None
        for d, fs in incs:
            for c in fs or (F.EMPTYC,):
                m = None
                for t, s in c.d.items():
                    if t.op == 'le0' and s.single() == 1:
                        y = sub(t.a[0], add(p, d))
                        if not any(x is p for x in subterms(y)):
                            l = self.bound(y, None, -1)
                            if l is not None and (m is None or -l < m):
                                m = -l
                if m is None:
                    return None
                best = m if best is None else max(best, m)
        return best

    def seqphi(self, p):
        key = ('seq', p)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return 0, MEM
        self.busy.add(key)
        try:
            self.memo[key] = x = self.seqphi1(p)
            return x
        finally:
            self.busy.discard(key)

    def seqphi1(self, p):
        L = mk('len', p)
        lo_, hi_, grow, glo = None, None, 0, 0
        for v, fs in self.r.I.phis[p]:
            n = seqlen(v)
            c, q = lin_parts(n)
            if q.get(L) == 1:
                q = dict(q)
                del q[L]
                d = mklin(c, q)
                a = [self.bound(d, c2, 1) for c2 in fs or (None,)]
                b = [self.bound(d, c2, -1) for c2 in fs or (None,)]
                grow = None if grow is None or None in a else max([grow] + a)
                glo = None if glo is None or None in b else min([glo] + b)
            elif v.op == 'slice' and v.a[0] is p or q and any(y is p for y in subterms(n)):
                glo = None
                if not (v.op == 'slice' and v.a[0] is p):
                    grow = None
            else:
                a = [self.bound(n, c2, 1) for c2 in fs or (None,)]
                b = [self.bound(n, c2, -1) for c2 in fs or (None,)]
                hi_ = MEM if None in a else max([hi_ or 0] + a)
                b = 0 if None in b else min(b)
                lo_ = b if lo_ is None else min(lo_, b)
        if lo_ is None:
            return 0, MEM
        lo_ = lo_ if glo == 0 else 0
        if grow is None:
            hi_ = MEM
        elif grow > 0:
            n = self.trips(p)
            hi_ = MEM if n is None else min(MEM, hi_ + n * grow)
        return max(0, lo_), hi_

    def grown(self, x, conj):
        """len(x) = entry length + k per element, for a text that gains k items on every pass of a loop that ran to its end."""
        k, base, D = None, None, None
        L = mk('len', x)
        for v, fs in self.r.I.phis[x]:
            c, q = lin_parts(seqlen(v))
            if q.get(L) == 1:
                q = dict(q)
                del q[L]
                if q or k not in (None, c):
                    return None
                k = c
            else:
                if base is not None and base is not seqlen(v):
                    return None
                base = seqlen(v)
        l = self.loop_of(x)
        if k is None or base is None or l is None:
            return None
        for t, s in conj.d.items():
            if t.op == 'done' and s.single() == 1 and not t.a[1] and t.a[2].a[0] is x.a[0] and t.a[2].a[1] in l[0]:
                if D is not None:
                    return None
                D = t.a[0]
        if D is None:
            return None
        if D.op == 'range':
            n = sub(D.a[1], D.a[0])
        elif D.op == 'chunks' and is_num(D.a[1]):
            n = div(add(seqlen(D.a[0]), num(D.a[1].a[0] - 1)), D.a[1].a[0])
        elif D.op in ('over', 'seqit'):
            n = seqlen(D.a[0])
        else:
            return None
        return add(base, scale(n, k))

    # ------------------------------------------------------------ refutation
    def holds(self, facts, good):
        """True when the obligation is proved on this path."""
        if is_num(good) and good.a[0]:
            return True
        return all(self.refuted(F.Conj(dict(c.d)), [(good, 0)]) for c in facts)

    def refuted(self, conj, more, depth=7):
        d = dict(conj.d)
        todo = list(more)
        todo += [(x, s.single()) for t, s in d.items() if t.op == 'band' and s.single() == 1 or t.op == 'bor' and s.single() == 0 for x in t.a]
        alts = []
        while todo:
            t, v = todo.pop()
            if is_num(t):
                if t.a[0] != v:
                    return True
                continue
            if t.op == 'not':
                todo.append((t.a[0], 1 - v))
            elif t.op == 'band' and v == 1 or t.op == 'bor' and v == 0:
                todo += [(t.a[0], v), (t.a[1], v)]
            elif t.op in ('band', 'bor'):
                alts.append([[(t.a[0], v)], [(t.a[1], v)]])
            else:
                z = iset(v)
                if t in d:
                    z = iinter(d[t], z)
                if z.empty():
                    return True
                d[t] = z
        c = F.Conj(d)
        cons = []
        for t, s in d.items():
            if iinter(s, rng(t)).empty() or iinter(s, F.cset(c, t)).empty():
                return True
            v = s.single()
            if t.op in ('le0', 'eq0') and v is not None:
                x = t.a[0]
                if t.op == 'le0':
                    cons.append(x if v else sub(num(1), x))
                elif v:
                    cons += [x, scale(x, -1)]
                else:
                    alts.append([[(mk_le(add(x, num(1))), 1)], [(mk_le(sub(num(1), x)), 1)]])
            elif t.op == 'in' and v is not None:
                z = t.a[1] if v else icompl(t.a[1])
                self.limits(cons, t.a[0], z)
                if z.lo() is None and z.hi() is None and not z.empty():
                    iv = z.iv
                    alts.append([[(mk('in', t.a[0], ISet((i,))), 1)] for i in iv] if 1 < len(iv) <= 3 else [[]])
            elif t.op in ('charbound', 'strp', 'exists', 'done', 'lexlt', 'sigok', 'kept', 'not', 'band', 'bor', 'inzone', 'validname', 'eq'):
                if t.op == 'charbound' and v == 0 and self.boundary(c, t):
                    return True
                if t.op == 'exists' and v == 0 and (self.clash(c, t) or self.nodot(t)):
                    return True
                if t.op == 'strp' and v == 0 and t.a[0] == 'contains' and self.contained(c, t):
                    return True
                if t.op == 'validname' and v is not None and t.a[0].op == 'bytes' and v != is_valid(t.a[0].a[0]):
                    return True
                if t.op == 'eq' and v == 1:
                    a, b = seqlen(t.a[0]), seqlen(t.a[1])
                    cons += [sub(a, b), sub(b, a)]
            else:
                self.limits(cons, t, s)
        if depth and alts:
            for al in alts:
                if al != [[]] and len(al) > 1 and all(self.refuted(c, x, depth - 1) if not any(y in d and d[y].single() == k for y, k in x) else False for x in al):
                    return True
        atoms, seen, splits = set(), set(), []
        out = []

        def addL(L):
            if is_num(L):
                if L.a[0] > 0:
                    out.append(L)
                return
            out.append(L)
            atoms.update(lin_parts(L)[1])
        for L in cons:
            addL(L)
        while atoms - seen:
            for k in list(atoms - seen):
                seen.add(k)
                l, h = self.atom(k, c, -1), self.atom(k, c, 1)
                if l is not None:
                    addL(sub(num(l), k))
                if h is not None:
                    addL(sub(k, num(h)))
                if l is not None and h is not None and l > h:
                    return True
                o = k.op
                if o == 'ite':
                    splits.append([[(k.a[0], 1), ('=', k, k.a[1])], [(k.a[0], 0), ('=', k, k.a[2])]])
                elif o == 'min':
                    for x in k.a:
                        addL(sub(k, x))
                    splits.append([[('=', k, x)] for x in k.a])
                elif o == 'max':
                    for x in k.a:
                        addL(sub(x, k))
                    splits.append([[('=', k, x)] for x in k.a])
                elif o == 'div' and is_num(k.a[1]):
                    n = k.a[1].a[0]
                    addL(sub(scale(k, n), k.a[0]))
                    addL(sub(k.a[0], add(scale(k, n), num(n - 1))))
                elif o == 'mod':
                    addL(sub(k, k.a[0]))
                elif o == 'wrap':
                    x = k.a[1]
                    lo_, hi_ = self.lo(x, c), self.hi(x, c)
                    if lo_ is not None and hi_ is not None and 0 <= lo_ and hi_ < 1 << k.a[0]:
                        addL(sub(k, x))
                        addL(sub(x, k))
                    else:
                        splits.append([[('=', k, x)], [('=', k, sub(x, num(1 << k.a[0])))], [(mk_le(add(x, num(1))), 1)], [(mk_le(sub(num(2 << k.a[0]), x)), 1)]])
                elif o == 'elem' and k.a[0].op == 'range':
                    addL(sub(k.a[0].a[0], k))
                    addL(sub(add(k, num(1)), k.a[0].a[1]))
                elif o == 'elem' and k.a[0].op in ('over', 'seqit'):
                    addL(sub(add(k, num(1)), seqlen(k.a[0].a[0])))
                elif o == 'len' and k.a[0] in self.r.I.phis:
                    g = self.grown(k.a[0], c)
                    if g is not None:
                        addL(sub(g, k))
                        addL(sub(k, g))
        if F.fm_unsat(out):
            return True
        if depth:
            for sp in splits:
                if any(any(y[0] == '=' and known(d, y) for y in alt) or any(y[0] != '=' and y[0] in d and d[y[0]].single() is not None and len(alt) == 1 for y in alt) for alt in sp):
                    continue
                ok_ = True
                for alt in sp:
                    m = []
                    for y in alt:
                        if y[0] == '=':
                            e = sub(y[1], y[2])
                            m.append((mk('eq0', e), 1) if not is_num(e) else (num(int(e.a[0] == 0)), 1))
                        else:
                            m.append(y)
                    if not self.refuted(c, m, depth - 1):
                        ok_ = False
                        break
                return ok_
        return False

    def limits(self, cons, t, z):
        if z.empty():
            cons.append(num(1))
            return
        if z.lo() is not None:
            cons.append(sub(num(z.lo()), t))
        if z.hi() is not None:
            cons.append(sub(t, num(z.hi())))

    def boundary(self, c, t):
        """Position t.a[1] of text t.a[0] is a character boundary."""
        x, i = t.a
        if self.is_name(x) or is_num(i) and i.a[0] == 0 or i is seqlen(x):
            return True
        s = F.cset(c, idx(x, i))
        if not s.empty() and s.hi() is not None and s.hi() < 128 and s.lo() is not None:
            return True
        for e, z in c.d.items():
            if e.op == 'eq' and z.single() == 1 and e.a[0].op == 'bytes' and e.a[1].op == 'slice' and e.a[1].a[0] is x and e.a[1].a[1] is num(0) and e.a[1].a[2] is i:
                return True          # right after text that is there in full
        one = F.cset(c, idx(x, sub(i, num(1))))
        if one.hi() is not None and one.hi() < 128 and one.lo() is not None:
            return True
        seq = mk('chars', x)
        left = iset(*[]) if False else irange(128, 0x10ffff)
        for z in one_atom(c, lambda y, a: a.op == 'idx' and a.a[0] is seq and a.a[1].op == 'elem' and full(a.a[1], seq)):
            left = iinter(left, icompl(z))
        return left.empty()

    def contained(self, c, t):
        """The text is known to be somewhere in the other."""
        x, k = t.a[1], t.a[2]
        lo, hi = num(0), seqlen(x)
        base = x
        if x.op == 'slice':
            base, lo, hi = x.a
        for e, z in c.d.items():
            if e.op == 'eq' and z.single() == 1:
                for y, o in (e.a, e.a[::-1]):
                    if y is k and o.op == 'slice' and o.a[0] is base:
                        rest = F.Conj({a: b for a, b in c.d.items() if a is not t})
                        if self.refuted(rest, [(le0(sub(lo, o.a[1])), 0)]) and self.refuted(rest, [(le0(sub(o.a[2], hi)), 0)]):
                            return True
        return False

    def clash(self, c, t):
        """No element of x differs from b, yet x is not all b."""
        for alt in t.a[1]:
            if len(alt) != 1:
                continue
            (a, z), = alt
            if a.op != 'idx' or a.a[1].op != 'elem' or not full(a.a[1], a.a[0]):
                continue
            only = icompl(z, rng(a) if rng(a).lo() is not None else irange(0, 255)).single()
            if only is None:
                continue
            for e, s in c.d.items():
                if e.op == 'eq' and s.single() == 0:
                    o = e.a[1] if e.a[0] is a.a[0] else e.a[0] if e.a[1] is a.a[0] else None
                    if o is None:
                        continue
                    if o.op == 'bytes' and set(o.a[0]) == {only} and self.seqlen_bounds(a.a[0], c) == (len(o.a[0]),) * 2:
                        return True
                    if o.op == 'rep' and is_num(o.a[0]) and o.a[0].a[0] == only and is_num(o.a[1]) and self.seqlen_bounds(a.a[0], c) == (o.a[1].a[0],) * 2:
                        return True
        return False

    def nodot(self, t):
        """A fact that a valid name, which ends in '.', has no '.'."""
        for alt in t.a[1]:
            if len(alt) == 1:
                (a, z), = alt
                if a.op == 'idx' and a.a[1].op == 'elem' and full(a.a[1], a.a[0]) and z.has(46) and self.is_name(a.a[0]):
                    return True
        return False

    def counter(self, p):
        """(lowest, highest) start of a number only ever changed by small constant steps, or None."""
        seen, todo, lo_, hi_, least = set(), [p], None, None, 0
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            for v, fs in self.r.I.phis[q]:
                c, l = lin_parts(v)
                if len(l) == 1 and list(l.values()) == [1] and list(l)[0] in self.r.I.phis:
                    if abs(c) > 8:
                        return None
                    if c < 0:
                        x = [self.bound(v, y, -1) for y in fs or (None,)]
                        if None in x:
                            least = c
                        else:
                            lo_ = min(x + ([] if lo_ is None else [lo_]))
                    todo += list(l)
                else:
                    a, b = self.bound(v, None, -1), self.bound(v, None, 1)
                    if a is None or b is None:
                        return None
                    lo_, hi_ = a if lo_ is None else min(a, lo_), b if hi_ is None else max(b, hi_)
        return None if hi_ is None else (lo_ if least == 0 else None, hi_)


def is_valid(s):
    return int(0 < len(s) <= 255 and s.endswith(b'.') and not any(x < 33 or x > 126 or x in b'"\\' for x in s) and (s == b'.' or all(0 < len(l) < 64 for l in s[:-1].split(b'.'))))


def known(d, y):
    s = d.get(mk('eq0', sub(y[1], y[2])))
    return s is not None and s.single() == 1


def mk_le(x):
    if is_num(x):
        return num(int(x.a[0] <= 0))
    return mk('le0', x)


class Records:
    """What the record parsers guarantee of the records they return: per type, the conditions and fields of each success."""

    def __init__(self, ctx, cfg, types, text):
        self.of = {}
        self.why = {}
        for f in ctx.prog(cfg).fns:
            if f['name'] != 'read_from_data' or not f.get('local') or 'body' not in f or f.get('shim'):
                continue
            r = ctx.run(f, cfg)
            if not r.ok:
                self.why[f['full']] = r.why
                continue
            pr = Prover(r, types, text(r))
            data = next((r.arg(i) for i in range(len(sig(r.P, f)[0])) if '[u8]' in sig(r.P, f)[0][i]), None)
            for st, v in r.rets:
                if not is_ok(v):
                    continue
                x = pay(v)
                if x.op != 'agg':
                    self.why[f['full']] = 'result not understood'
                    continue
                m = {mk('param', 'p%d' % i): mk('param', 'rec%d' % i) for i in range(r.f['body']['argc'])}
                fs = r.P.adt[x.a[0]]['v'][x.a[1]]['f']
                for c in st.facts:
                    d = dict(c.d)
                    if data is not None:
                        # a record's data is what its 16-bit length spans
                        n = seqlen(data)
                        d[n] = iinter(F.cset(c, n), irange(0, 65535))
                        if d[n].empty():
                            continue
                    c = F.Conj(d)
                    for (n, ti, _), y in zip(fs, x.a[2]):
                        if (r.P.types[ti].get('p') or '').startswith('std::vec'):
                            h = pr.hi(seqlen(y), c)
                            types.bounds[n] = max(types.bounds.get(n, 0), MEM if h is None else h)
                    if any(y in r.I.phis for z in list(d) + list(x.a[2]) for y in subterms(z)):
                        self.of.setdefault(x.a[0], []).append(None)
                        continue
                    self.of.setdefault(x.a[0], []).append((F.Conj({subst(t, m): s for t, s in d.items()}), {n: subst(y, m) for (n, _, _), y in zip(fs, x.a[2])}))

    def cases(self, r, conj, good):
        """The path of r, a method on a record, for each way the record may have been parsed; None when that is not known."""
        b = r.f['body']
        if not b['argc']:
            return None
        t = r.P.types[r.P.deref_ty(b['locals'][1])]
        l = self.of.get(t.get('p'))
        if not l or None in l:
            return None
        p = mk('param', 'p0')
        out = []
        for c, fs in l:
            m = {mk('fld', p, n): y for n, y in fs.items()}
            d = dict(c.d)
            ok_ = True
            for t, s in conj.d.items():
                t2 = subst(t, m)
                if is_num(t2):
                    ok_ = ok_ and s.has(t2.a[0])
                    continue
                s = iinter(s, d.get(t2, s))
                ok_ = ok_ and not s.empty()
                d[t2] = s
            if ok_:
                out.append((F.Conj(d), subst(good, m)))
        return out
