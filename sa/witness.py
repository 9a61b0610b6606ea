"""Concrete failing points for obligations that could not be proved.

A path's conditions are solved for one assignment of the inputs (a bounded search for integers, then bytes put where the
conditions look at them) and then judged at that point: every condition has to evaluate to true and the obligation to
false.  Loop-carried values stand for their values on entry, so that the path described is one the first pass really
takes; a path behind a loop that makes passes at the point, or conditions lost where paths meet, give no verdict.
"""
import itertools, time
from panics import *

TEXT = 'é'.encode()
POOL = (b'a.', b'.', b'b.a.', b'a' * 63 + b'.' + b'b' * 63 + b'.' + b'c' * 63 + b'.' + b'd' * 61 + b'.')
FILL = (0, 97, 255, TEXT, 46, 34)


SAMPLES = [b'', b'!', b'.', b'a', b'a.', b'\x7f', b'\x80', b'\xff', b'0', b'z', b'Z', b'!!', b'aa', b'a!a!', b'!aaaaaaa', b'\x7fzzzzzzz', b'zzzzzzzz', b'00000000', b'!!!!!!!!', b'[[[[[[[[', b'aaaaaaaaa', b'zz', b'zzzz', b'zzzzz', b'zzzzzzz', b'11111111112',
           b'a.b.', b'..', b'.a', b'a..', b'aaaaaaaa!aaaaaaa', 'é.'.encode(), 'éé'.encode(), bytes(12), bytes(64), b'\xff' * 64, bytes(300)]


# names on the wire
WIRE = [b'\0', b'\x01a\0', b'\x01 \0', b'\x03a\\b\0', b'\x01a\x01b\0', b'\x02\xc3\xa9\0', b'\x02\xff\xfe\0', b'\x01a\x01 \x01b\0', b'\x01.\0', bytes([63]) + b'a' * 63 + b'\0', bytes([64]) + b'a' * 64 + b'\0',
        (bytes([63]) + b'a' * 63) * 4 + b'\0', (b'\x01a') * 127 + b'\0', (b'\x01a') * 128 + b'\0', (b'\x01a') * 130 + b'\0']


class Give(Exception):
    pass


class Witness:
    def __init__(self, prover):
        self.pr = prover
        self.r = prover.r
        self.pts = Points(self.r)
        ops = self.pts.ops
        ops['charbound'] = self.charbound
        ops['validname'] = lambda go, x: is_valid(go(x.a[0]))
        ops['wname'] = lambda go, x: wire(go(x.a[0]))
        ops['lexlt'] = lambda go, x: int(go(x.a[0]) < go(x.a[1]))
        ops['find'] = self.nov
        ops['posof'] = self.posof
        ops['upper'] = lambda go, x: go(x.a[0]).upper()
        ops['tnl'] = self.tnl
        ops['nlabels'] = lambda go, x: labels(go(x.a[0]))
        ops['chunks'] = lambda go, x: [go(x.a[0])[i:i + go(x.a[1])] for i in range(0, len(go(x.a[0])), go(x.a[1]))]
        ops['chunk'] = self.chunk
        ops['anyof'] = self.anyof
        ops['inzone'] = lambda go, x: int(go(x.a[1]) == b'.' or go(x.a[0]) == go(x.a[1]) or go(x.a[0]).endswith(b'.' + go(x.a[1])))
        ops['endsw'] = lambda go, x: int(go(x.a[0]).endswith(go(x.a[1])))
        ops['startsw'] = lambda go, x: int(go(x.a[0]).startswith(go(x.a[1])))

    def charbound(self, go, x):
        v, i = go(x.a[0]), go(x.a[1])
        if not 0 <= i <= len(v):
            raise NoVal('charbound')
        return int(i == len(v) or v[i] & 0xc0 != 0x80)

    def anyof(self, go, x):
        return int(any(all(z.has(go(t)) for t, z in alt) for alt in x.a[0]))

    def one_record(self, d, g):
        """(conditions, obligation) for lists of records that hold just one record, or None."""
        ys = {y for t in list(d) + [g] for y in subterms(t)}
        of = {y.a[0] for y in ys if y.op in ('discr', 'rrname', 'fld') and isinstance(y.a[0], T)}
        els = {y for y in ys if y.op == 'idx' and y.a[1].op == 'elem' and y in of}
        if not els:
            return None
        ls = {y.a[0] for y in els}
        if any(y.op in ('phi', 'push', 'ext', 'unk', 'sorted') for L in ls for y in subterms(L)):
            return None
        m = {}
        for y in els:
            m[y] = mk('idx', y.a[0], num(0))
            m[y.a[1]] = num(0)
        for y in ys:
            if y.op == 'elem' and y.a[0].op in ('over', 'seqit') and y.a[0].a[0] in ls or y.op == 'elem' and any(y.a[0] is mk('range', num(0), seqlen(L)) for L in ls):
                m[y] = num(0)
        for L in ls:
            m[seqlen(L)] = num(1)

        def atom(t):
            t = subst(t, m)
            if t.op == 'eq' and not any(x.op in ('bytes', 'lower', 'slice', 'ext') or x.op == 'fld' and x.a[1] == '0' for x in t.a) and any(x.op == 'rrname' for x in t.a):
                t = eq(*[x.a[2][0] if x.op == 'agg' else mk('fld', x, '0') for x in t.a])
            return t
        out = {}
        todo = list(d.items())
        for t, s in todo:
            if t.op == 'done' and any(y in ls for y in subterms(t.a[0])):
                continue
            if t.op == 'exists' and t.a[0].op in ('over', 'seqit') and t.a[0].a[0] in ls:
                if s.single() == 0 and all(len(alt) == 1 and z.single() in (0, 1) and a.op in ('eq0', 'le0', 'eq', 'in', 'inzone') for alt in t.a[1] for a, z in alt):
                    # none of them: each on its own the other way round
                    for alt in t.a[1]:
                        for a, z in alt:
                            a, z = atom(a), iset(1 - z.single())
                            if is_num(a):
                                if not z.has(a.a[0]):
                                    return None
                                continue
                            z = iinter(z, out.get(a, z))
                            if z.empty():
                                return None
                            out[a] = z
                    continue
                t2 = mk('anyof', tuple(tuple((atom(a), z) for a, z in sorted(alt, key=lambda x: x[0].id)) for alt in t.a[1]))
                t2, s = (t2, s)
            elif t.op in ('exists', 'count', 'done'):
                return None
            else:
                t2 = atom(t)
            if is_num(t2):
                if not s.has(t2.a[0]):
                    return None
                continue
            s = iinter(s, out.get(t2, s))
            if s.empty():
                return None
            out[t2] = s
        return out, atom(g)

    def nov(self, go, x):
        raise NoVal(x.op)

    def posof(self, go, x):
        s, p = go(x.a[1]), go(x.a[2])
        i = s.find(p) if x.a[0] == 'split_once' else s.rfind(p)
        if i < 0:
            raise NoVal('posof')
        return i

    def tnl(self, go, x):
        s, n = go(x.a[0]), go(x.a[1])
        l = s[:-1].split(b'.') if s != b'.' else []
        if not 0 <= n <= len(l):
            raise NoVal('tnl')
        return b'.'.join(l[len(l) - n:]) + b'.' if n else b'.'

    def chunk(self, go, x):
        s, n, i = go(x.a[0]), go(x.a[1]), go(x.a[2])
        if not 0 <= i * n < len(s):
            raise NoVal('chunk')
        return s[i * n:i * n + n]

    # ------------------------------------------------------------ loop-carried values on entry
    def heads(self, ts):
        out = []
        for t in ts:
            for y in subterms(t):
                if y in self.r.I.phis and y.op == 'phi' and (y.a[0], y.a[1]) not in out:
                    out.append((y.a[0], y.a[1]))
        return out

    def entered(self, conj, good):
        """(conj, good) with loop-carried values replaced by those on entry, one per choice of entry edge."""
        work = [(conj.d, good, 0, frozenset(), {})]
        for _ in range(60):
            if not work:
                return
            d, g, n, used, sb = work.pop()
            hs = self.heads(list(d) + [g])
            if not hs:
                if all(self.finished(t, s, used) for t, s in d.items()):
                    yield d, g, used, sb
                continue
            if n >= 6:
                continue
            h = hs[0]
            first = [(k, st, 0) for k, st in self.r.I.entries.get(h, ())[:6]]
            if ('back', h) not in used:
                # the second pass, when nothing in the loop is named by the pass
                first += [(k, st, 1) for k, st in self.r.I.backs.get(h, ())[:6]]
            for k, st, again in first:
                m = {}
                bad = False
                for t in set(y for x in list(d) + [g] for y in subterms(x) if y.op == 'phi' and (y.a[0], y.a[1]) == h):
                    if t.a[2] != k:
                        bad = True
                        break
                    w = st.store.get(t.a[3])
                    for i in t.a[4]:
                        w = None if w is None else w.a[2][i] if w.op == 'agg' and i < len(w.a[2]) else w.a[0][i] if w.op == 'arr' else None
                    if w is None:
                        bad = True
                        break
                    m[t] = w
                if bad or again and (self.passes(h, list(d) + [g]) or self.passes(h, list(m.values()) + [t for c in st.facts for t in c.d])):
                    continue
                for c in st.facts[:8]:
                    e = {}
                    ok_ = True
                    for t, s in list(d.items()) + list(c.d.items()):
                        t2 = subst(t, m)
                        if is_num(t2):
                            if not s.has(t2.a[0]):
                                ok_ = False
                                break
                            continue
                        s = iinter(s, e.get(t2, s))
                        if s.empty():
                            ok_ = False
                            break
                        e[t2] = s
                    if ok_:
                        work.append((e, subst(g, m), n + 1, used | {('back', h) if again else h}, {**{k: subst(x, m) for k, x in sb.items()}, **m}))

    def finished(self, t, s, used):
        """A loop whose values on entry are used must not have made a pass before it ran to its end."""
        if t.op != 'done' or s.single() != 1:
            return True
        site = t.a[2]
        for (cx, h), (blocks, _) in self.r.I.loops.items():
            if cx is site.a[0] and site.a[1] in blocks and (cx, h) in used and self.inside.get(cx) not in blocks:
                self.zero.add(t)
        return True

    def passes(self, h, ts):
        """Terms that name something of one pass of the loop: elements, results of calls, values carried by loops inside it."""
        blocks = self.r.I.loops[h][0]
        for t in ts:
            for y in subterms(t):
                if y.op in ('site',) or y.op == 'phi' and (y.a[0], y.a[1]) != h:
                    cx, b = y.a[0], y.a[1]
                    while cx is not h[0]:
                        if cx.op != 'ctx' or not isinstance(cx.a[0], T) or not isinstance(cx.a[1], T):
                            break
                        b = cx.a[1].a[0]
                        cx = cx.a[0]
                    if cx is h[0] and b in blocks:
                        return True
        return False

    # ------------------------------------------------------------ search
    def leaf(self, t, seqs, ints, places, depth=0):
        """Collects the free parts of t: byte strings, integers and positions looked at."""
        if depth > 60:
            raise Give()
        go = lambda x: self.leaf(x, seqs, ints, places, depth + 1)
        o = t.op
        if o in ('int', 'bytes', 'site', 'ctx', 'str'):
            return
        if o in ('phi', 'unk', 'havoc', 'opq', 'rec', 'uninit', 'unmod'):
            raise Give()
        if o == 'elem':
            D = t.a[0]
            if D.op == 'range':
                go(D.a[0])
                go(D.a[1])
            self.elems.add(t)
            return
        if o == 'done':
            for x in subterms(t.a[0]):
                if x.op == 'len':
                    go(x)
            if t.a[0].op == 'range':
                go(t.a[0])
            else:
                go(mk('len', t.a[0].a[0] if t.a[0].op in ('seqit', 'over', 'chunks') else t.a[0].a[1]) if isinstance(t.a[0].a[0], T) or len(t.a[0].a) > 1 else num(0))
            return
        if o == 'exists':
            return
        if o == 'keytag' and t.a[0].op in ('itelem', 'idx', 'param'):
            self.tags.add(t.a[0])
            ints.setdefault(t, None)
            return
        if o == 'len':
            x = t.a[0]
            if self.isleaf(x):
                seqs.setdefault(x, None)
                ints.setdefault(t, None)
                return
            return go(x)
        if o == 'idx':
            x = t.a[0]
            go(t.a[1])
            if self.isleaf(x):
                seqs.setdefault(x, None)
                ints.setdefault(mk('len', x), None)
                ints.setdefault(t, None)
                places.setdefault(t, (x, t.a[1], 1))
                return
            return go(x)
        if o == 'frombe' and t.a[1].op == 'slice' and self.isleaf(t.a[1].a[0]):
            x = t.a[1].a[0]
            go(t.a[1].a[1])
            seqs.setdefault(x, None)
            ints.setdefault(mk('len', x), None)
            ints.setdefault(t, None)
            places.setdefault(t, (x, t.a[1].a[1], t.a[0] // 8))
            return
        if o in ('fld', 'param', 'discr') or o in ('namelen_in', 'rdname', 'rdbitmap'):
            if o != 'discr' and self.isseq(t):
                seqs.setdefault(t, None)
                ints.setdefault(mk('len', t), None)
            else:
                ints.setdefault(t, None)
            return
        for y in t.a:
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        go(z)
                    elif isinstance(z, tuple):
                        for w in z:
                            if isinstance(w, T):
                                go(w)

    def isleaf(self, x):
        return x.op in ('param', 'fld') or x.op == 'idx' and x.a[0].op in ('param', 'fld')

    def isseq(self, t):
        if t in self.asseq:
            return True
        k = self.pr.T.field(t)
        return k is not None and k[0] in ('vec', 'array') or self.isname(t)

    def isname(self, t):
        if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'fld' and t.a[0].a[1] in ('Ok.0', '0') and t.a[0].a[0].op == 'rdname':
            return True
        return self.pr.is_name(t)

    def find(self, ev, conj, good, limit=3.0):
        """A description of a failing point, or None."""
        if self.r.I.lossy:
            return None
        self.t0, self.limit = time.time(), limit
        self.lost = self.losses(ev)
        if self.lost is None:
            return None
        try:
            self.zero = set()
            # a loop the failing place lies in has not run to its end
            self.inside = dict(self.chain(ev.ctx, ev.site)[0])
            conj = self.slice(conj, good)
            for d, g, self.used, self.sub in self.entered(conj, good):
                x = self.single(d, g) or self.solve(d, g) or self.sampled(d, g)
                if x is not None:
                    return x
            return self.unrolled(conj.d, good)
        except Give:
            return None

    def unrolled(self, d, g):
        """A byte string whose passes through one loop, followed one after the other, end up at the failing place."""
        hs = self.heads(list(d) + [g])
        if len(hs) != 1 or (hs[0][0], hs[0][1]) not in self.r.I.entries:
            return None
        h = hs[0]
        ents, backs = self.r.I.entries[h], self.r.I.backs.get(h, ())
        if len({k for k, _ in list(ents) + list(backs)}) != 1 or len(ents) > 4 or len(backs) > 8:
            return None
        k0 = ents[0][0]
        terms = list(d) + [g]
        need = {y for t in terms for y in subterms(t) if y.op == 'phi'}
        while True:
            more = set(need)
            for _, st in backs:
                for ph in need:
                    w = self.at_state(st, ph)
                    if w is None:
                        return None
                    more |= {y for y in subterms(w) if y.op == 'phi'}
                for c in st.facts:
                    more |= {y for t in c.d for y in subterms(t) if y.op == 'phi'}
            if more == need:
                break
            need = more
        if any((ph.a[0], ph.a[1]) != h or ph.a[2] != k0 for ph in need):
            return None
        every = list(terms)
        for _, st in list(ents) + list(backs):
            for ph in need:
                w = self.at_state(st, ph)
                if w is None:
                    return None
                every.append(w)
            every += [t for c in st.facts for t in c.d]
        ys = {y for t in every for y in subterms(t)}
        ps = {y for y in ys if y.op == 'param'}
        if len(ps) != 1 or any(y.op in ('unk', 'havoc', 'lost', 'rec', 'opq', 'uninit', 'unmod', 'discr', 'rdname') for y in ys):
            return None
        p = ps.pop()
        if any(y.op == 'fld' and p in subterms(y) for y in ys) or not any(y.op in ('len', 'slice', 'idx') and y.a[0] is p or y is p and p in [self.at_state(st, ph) for _, st in ents for ph in need] for y in ys):
            return None
        for v in SAMPLES + WIRE:
            if time.time() - self.t0 > self.limit:
                return None
            if not self.possible(p, v):
                continue
            base = {p: v, seqlen(p): len(v)}
            try:
                if self.follow(d, g, base, need, ents, backs) and self.entries_hold(base):
                    return self.tell(base, [p], {}, {})
            except (NoVal, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError, KeyError):
                continue
        return None

    def at_state(self, st, ph):
        w = st.store.get(ph.a[3])
        for i in ph.a[4]:
            w = None if w is None else w.a[2][i] if w.op == 'agg' and i < len(w.a[2]) else w.a[0][i] if w.op == 'arr' else None
        return w

    def follow(self, d, g, base, need, ents, backs):
        es = [st for _, st in ents if self.pts.at(list(st.facts), base) is True] if len(ents) > 1 else [ents[0][1]]
        if len(es) != 1 or self.pts.at(list(es[0].facts), base) is not True:
            return False
        cur = {ph: self.pts.value(self.at_state(es[0], ph), base) for ph in need}
        for _ in range(300):
            env = dict(base)
            for ph, v in cur.items():
                env[ph] = v
                if isinstance(v, bytes):
                    env[seqlen(ph)] = len(v)
            here = self.pts.at([F.Conj(d)], env)
            if here is True and self.pts.value(g, env) == 0:
                return True
            if here is None:
                return False
            vs = [(self.pts.at(list(st.facts), env), st) for _, st in backs]
            nxt = [st for v, st in vs if v is True]
            if len(nxt) != 1 or any(v is None for v, _ in vs):
                return False
            cur = {ph: self.pts.value(self.at_state(nxt[0], ph), env) for ph in need}
        return False

    def single(self, d, g):
        x = self.one_record(d, g)
        return self.solve(*x) if x is not None else None

    def base_of(self, t):
        """The independent inputs a term depends on."""
        out = set()
        todo, seen = [t], set()
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'fld' and y.a[0].op == 'param':
                out.add(y)
                continue
            if y.op in ('param', 'phi', 'unk', 'havoc', 'opq', 'rec', 'uninit', 'unmod'):
                out.add(y)
            if y.op == 'phi':
                out |= {mk('loop', y.a[0], y.a[1])}
                continue
            for z in y.a:
                if isinstance(z, T):
                    todo.append(z)
                elif isinstance(z, (tuple, frozenset)):
                    todo += flatT(z)
        return out

    def slice(self, conj, good):
        """Conditions that share no input with the obligation, even through others, say nothing of it: a path there exists
        (or all of the code is dead)."""
        rel = self.base_of(good)
        if not rel:
            return conj
        bs = [(t, self.base_of(t)) for t in conj.d]
        keep = set()
        ch = True
        while ch:
            ch = False
            for t, b in bs:
                if t not in keep and (not b or b & rel):
                    keep.add(t)
                    if b - rel:
                        rel |= b
                    ch = True
        return F.Conj({t: s for t, s in conj.d.items() if t in keep})

    def sampled(self, d, g):
        """A byte string out of SAMPLES that takes the path, when nothing but one parameter decides it."""
        ys = {y for t in list(d) + [g] for y in subterms(t)}
        ps = [y for y in ys if y.op == 'param']
        if len(ps) != 1 or any(y.op in ('phi', 'unk', 'havoc', 'in', 'lost') or self.r.imprecise(y) is not None for y in ys if y.op != 'in'):
            return None
        p = ps[0]
        bound = {y for t in d if t.op in ('exists', 'done', 'count') for y in subterms(t) if y.op == 'elem'}
        free = {y for t in list(d) + [g] if t.op not in ('exists', 'done', 'count') for y in subterms(t) if y.op == 'elem'}
        if any(y.op == 'fld' or y.op == 'discr' for y in ys):
            return None
        for v in SAMPLES:
            if time.time() - self.t0 > self.limit:
                return None
            if not self.possible(p, v):
                continue
            env = {p: v, seqlen(p): len(v)}
            env.update({e: 0 for e in free})
            try:
                if any(len(self.pts.items(t.a[0], env)) for t in self.zero):
                    continue
                if self.pts.at([F.Conj(d)], env) is True and self.pts.value(g, env) == 0 and self.entries_hold(env):
                    return self.tell(env, [p], {}, {})
            except (NoVal, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError, KeyError):
                continue
        return None

    def solve(self, d, g):
        self.elems = set()
        self.asseq = set()
        self.tags = set()
        for t in list(d) + [g]:
            for y in subterms(t):
                if y.op in ('len', 'slice', 'lower', 'chars', 'charbound', 'seqit') and isinstance(y.a[0], T):
                    self.asseq.add(y.a[0])
                elif y.op == 'idx':
                    self.asseq.add(y.a[0])
        seqs, ints, places = {}, {}, {}
        try:
            for t in list(d) + [g]:
                self.leaf(t, seqs, ints, places)
        except Give:
            return None
        if any(x.op == 'fld' and x.a[1] == 'pubkey' and x.a[0] in self.tags for t in list(d) + [g] for x in subterms(t)):
            return None
        if len(ints) > 40 or not self.apart(d, seqs, ints):
            return None
        names = [x for x in seqs if self.isname(x)]
        if len(names) > 4:
            return None
        for pool in itertools.product(POOL, repeat=len(names)):
            if time.time() - self.t0 > self.limit:
                return None
            pre = dict(zip(names, pool))
            x = self.solve2(d, g, seqs, ints, places, pre)
            if x is not None:
                return x
        return None

    def apart(self, d, seqs, ints):
        """Elements of one list of records looked at by different loops are taken to be different records: they have to differ in kind."""
        by = {}
        for t in list(seqs) + list(ints):
            for y in subterms(t):
                if y.op == 'idx' and y is not t and y.a[1].op == 'elem':
                    by.setdefault(y.a[0], set()).add(y)
        for x, ys in by.items():
            if len(ys) > 1:
                ks = [d.get(mk('discr', y)) for y in ys]
                if any(k is None or k.single() is None for k in ks) or len({k.single() for k in ks}) < len(ys):
                    return False
        return True

    def cons(self, d, g):
        pr = self.pr
        c = F.Conj(d)
        out = []
        todo = [(t, s) for t, s in d.items()] + [(g, iset(0))]
        while todo:
            t, s = todo.pop()
            v = s.single()
            if is_num(t):
                if not s.has(t.a[0]):
                    out.append(num(1))
            elif t.op == 'not' and v is not None:
                todo.append((t.a[0], iset(1 - v)))
            elif t.op == 'band' and v == 1 or t.op == 'bor' and v == 0:
                todo += [(t.a[0], s), (t.a[1], s)]
            elif t.op == 'le0' and v is not None:
                out.append(t.a[0] if v else sub(num(1), t.a[0]))
            elif t.op == 'eq0' and v is not None:
                if v:
                    out += [t.a[0], scale(t.a[0], -1)]
            elif t.op == 'in' and v is not None:
                z = t.a[1] if v else icompl(t.a[1])
                pr.limits(out, t.a[0], iinter(z, ISet(((rng(t.a[0]).lo(), rng(t.a[0]).hi()),))) if rng(t.a[0]).iv else z)
            elif t.op not in ('band', 'bor', 'charbound', 'strp', 'exists', 'done', 'lexlt', 'sigok', 'kept', 'inzone', 'validname', 'eq', 'endsw', 'startsw', 'anyof'):
                pr.limits(out, t, s)
        return out

    def consts(self, d, g, k):
        """Numbers the conditions compare k with."""
        out = set()
        for t, s in list(d.items()) + [(g, iset(0))]:
            subs = set(subterms(t))
            if k not in subs:
                continue
            for a, b in s.iv:
                out |= {x for x in (a, b) if x is not None}
            for y in subs:
                if is_num(y):
                    out.add(y.a[0])
                elif y.op == 'lin' and k in dict(y.a[1]):
                    out |= {abs(y.a[0]), abs(y.a[0]) + 1, abs(y.a[0]) - 1}
                elif y.op == 'in' and y.a[0] is k:
                    for a, b in y.a[1].iv:
                        out |= {x for x in (a, b) if x is not None}
                        out |= {x for x in (a and a - 1, b is not None and b + 1) if isinstance(x, int)}
                elif y.op == 'bytes' and len(y.a[0]) < 40:
                    out.add(len(y.a[0]))
                elif y.op == 'wrap' and k in lin_parts(y.a[1])[1]:
                    # values around the point where the sum overflows
                    c0, p0 = lin_parts(y.a[1])
                    if set(p0) == {k} and abs(p0[k]) == 1:
                        out |= {p0[k] * (w - c0 + e) for w in (0, 1 << y.a[0], 2 << y.a[0]) for e in (-1, 0, 1)}
        return out

    def alone(self, d, g, k):
        """The conditions that look at nothing but k."""
        out = []
        for t, s in list(d.items()) + [(g, iset(0))]:
            ys = set(subterms(t))
            if t.op not in ('exists', 'done', 'count') and k in ys and t is not k and len(ys) < 40:
                m = subst(t, {k: mk('hole')})
                if not any(y.op in ('fld', 'param', 'idx', 'elem', 'len', 'phi', 'rdname', 'namelen_in', 'slice') for y in subterms(m)):
                    out.append((t, s))
        return out

    def fits(self, conds, k, v):
        for t, s in conds:
            try:
                if not s.has(self.pts.value(t, {k: v})):
                    return False
            except (NoVal, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError):
                pass
        return True

    def solve2(self, d, g, seqs, ints, places, pre):
        pr = self.pr
        c = self.conj = F.Conj(d)
        base = []
        for L in self.cons(d, g):
            if is_num(L):
                if L.a[0] > 0:
                    return None
                continue
            base.append(L)
        val = {}
        for x, v in pre.items():
            val[mk('len', x)] = len(v)
            for t, (y, i, n) in places.items():
                if y is x and is_num(i) and n == 1:
                    if not 0 <= i.a[0] < len(v):
                        return None
                    val[t] = v[i.a[0]]
        atoms = [k for k in ints if k not in val]
        atoms.sort(key=lambda k: (k.op == 'len', k in places, k.id))
        # bounds
        bnd = {}
        for k in atoms:
            l, h = pr.atom(k, c, -1), pr.atom(k, c, 1)
            s = rng(k)
            if k in places:
                l, h = max(l or 0, 0), min((1 << 8 * places[k][2]) - 1, h if h is not None else 1 << 64)
            if k.op == 'len':
                l = max(l or 0, 0)
                h = min(h if h is not None else 70000, 70000)
            bnd[k] = (l, h)
            if l is not None:
                base.append(sub(num(l), k))
            if h is not None:
                base.append(sub(k, num(h)))
        for x, v in pre.items():
            # a name that is not the root takes at least two bytes
            for k in atoms:
                if k.op == 'namelen_in' and v != b'.' and any(y.op == 'rdname' and y.a == k.a for y in subterms(x)):
                    base.append(sub(num(2), k))
        for t, (x, i, n) in places.items():
            if x not in pre:
                base.append(sub(add(i, num(n)), mk('len', x)))
        base = [L for L in base if not (is_num(L) and L.a[0] <= 0)]
        if any(is_num(L) for L in base):
            return None
        cand = {}
        for k in atoms:
            l, h = bnd[k]
            z = {x for x in self.consts(d, g, k)} | {0, 1, 2}
            pw = [x for x in z if x > 2 and x & (x - 1) == 0]
            z |= {x + y for x in pw for y in pw if x != y}
            z |= {x - 1 for x in z if x > 3}
            z |= {x for x in (l, h) if x is not None}
            al = self.alone(d, g, k)
            z = {x for x in z if (l is None or x >= l) and (h is None or x <= h) and iinter(F.cset(c, k), iset(x)).single() is not None and self.fits(al, k, x)}
            cand[k] = sorted(z, key=lambda x: (abs(x), x))[:14] + ([h] if h is not None and len(z) > 14 else [])
        self.calls = 0
        return self.dfs(d, g, base, dict(val), atoms, cand, seqs, places, pre)

    def dfs(self, d, g, cons, val, atoms, cand, seqs, places, pre):
        self.calls += 1
        if self.calls > 600 or time.time() - self.t0 > self.limit:
            return None
        m = {k: num(v) for k, v in val.items()}
        cs = []
        env = {k: v for k, v in val.items()}
        env.update(pre)
        for L in cons:
            for k in lin_parts(L)[1]:
                if k not in m and k not in cand:
                    try:
                        m[k] = num(self.pts.value(k, env))
                    except (NoVal, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError):
                        pass
            L = subst(L, m)
            if is_num(L):
                if L.a[0] > 0:
                    return None
            else:
                cs.append(L)
        if F.fm_unsat(cs):
            return None
        if not atoms:
            return self.judge(d, g, val, seqs, places, pre)
        lim = {}
        for L in cs:
            c, p = lin_parts(L)
            if len(p) == 1:
                (k, n), = p.items()
                l, h = lim.get(k, (None, None))
                if n > 0:
                    x = -c // n
                    h = x if h is None else min(h, x)
                else:
                    x = -(-c // -n)
                    l = x if l is None else max(l, x)
                lim[k] = (l, h)
        k = next((k for k in atoms if k in lim and lim[k][0] is not None and lim[k][0] == lim[k][1]), atoms[0])
        l, h = lim.get(k, (None, None))
        z = [v for v in cand[k] if (l is None or v >= l) and (h is None or v <= h)]
        z = sorted(set(z[:8] + [x for x in (l, h) if x is not None and self.allowed(k, x)] + ([l + 1] if l is not None and (h is None or l < h) and self.allowed(k, l + 1) else [])), key=lambda x: (abs(x), x))
        for v in z:
            x = self.dfs(d, g, cs, dict(val, **{}) | {k: v}, [a for a in atoms if a is not k], cand, seqs, places, pre)
            if x is not None:
                return x
        return None

    def allowed(self, k, x):
        return not iinter(F.cset(self.conj, k), iset(x)).empty()

    def judge(self, d, g, val, seqs, places, pre):
        for fill in FILL:
            env = {}
            for k, v in val.items():
                if k.op not in ('len',) and k not in places:
                    env[k] = v
            for e in self.elems:
                env[e] = 0
            for x in seqs:
                if x in pre:
                    env[x] = pre[x]
                else:
                    n = val.get(mk('len', x), 0)
                    env[x] = bytes([fill]) * n if isinstance(fill, int) else (fill * n)[:n]
            # put the bytes looked at where they are
            ok_ = True
            for t, (x, i, n) in sorted(places.items(), key=lambda z: z[0].id):
                if x in pre or t not in val:
                    continue
                try:
                    p = self.pts.value(i, env)
                except NoVal:
                    ok_ = False
                    break
                b = bytearray(env[x])
                if not 0 <= p <= len(b) - n:
                    ok_ = False
                    break
                b[p:p + n] = (val[t] % (1 << 8 * n)).to_bytes(n, 'big')
                env[x] = bytes(b)
            if not ok_:
                continue
            if not all(self.possible(x, env[x]) for x in seqs):
                continue
            try:
                for e in self.elems:
                    if e.a[0].op == 'range':
                        env[e] = self.pts.value(e.a[0].a[0], env)
                if any(len(self.pts.items(t.a[0], env)) for t in self.zero):
                    continue
                if self.pts.at([F.Conj(d)], env) is True and self.pts.value(g, env) == 0 and self.entries_hold(env):
                    return self.tell(env, seqs, val, places)
            except (NoVal, ZeroDivisionError, IndexError, TypeError, ValueError, AttributeError):
                continue
        return None

    # ------------------------------------------------------------ conditions lost at loop heads
    def chain(self, cx, b):
        out = [(cx, b)]
        while cx.op == 'ctx' and isinstance(cx.a[0], T) and cx.a[0].op == 'ctx' and isinstance(cx.a[1], T) and cx.a[1].op == 'cs':
            b = cx.a[1].a[0]
            cx = cx.a[0]
            out.append((cx, b))
        return out, cx.op == 'ctx' and cx.a[0] == 'root'

    def reaches(self, fid, a, b):
        bbs = self.r.P.fns[fid]['body']['bbs']
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in engine.succs(bbs[x]['t']) if not bbs[y]['c']]
        return False

    def losses(self, ev):
        """Entry states of the loops on the way to the event at whose heads conditions were dropped; None when unknown."""
        ch, whole = self.chain(ev.ctx, ev.site)
        if not whole:
            return None
        pos = dict(ch)
        out = []
        for (cx, h), es in self.r.I.entries.items():
            lc, w = self.chain(cx, h)
            if not w:
                return None
            for c, b in lc:
                if c in pos:
                    fid = c.a[1] if c.a[0] == 'root' else c.a[2]
                    if not self.reaches(fid, b, pos[c]):
                        break
                    inv = self.r.I.invs.get((cx, h), {})
                    if any(len(st.facts) > 1 or any(t not in x.d for t in st.facts[0].d for x in inv.get(k, (F.EMPTYC,))) for k, st in es if st.facts):
                        out.append(((cx, h), [st.facts for k, st in es]))
                    break
        return out

    def entries_hold(self, env):
        env = dict(env)
        for p, x in self.sub.items():
            try:
                env[p] = self.pts.value(x, env)
            except NoVal:
                pass
        for h, es in self.lost:
            if h not in self.used and ('back', h) not in self.used and not any(self.pts.at(fs, env) is True for fs in es):
                return False
        return True

    def possible(self, x, v):
        """Whether x can be v: text is UTF-8, and only names (in base32: labels) are passed to the crate's own functions as text."""
        t = self.pr.text.type_of(x)
        if t is None or t['k'] not in ('str', 'ref') or 'str' not in t.get('n', ''):
            return True
        try:
            v.decode()
        except UnicodeDecodeError:
            return False
        if x.op == 'param' and not self.r.f['pub'] and not self.r.f.get('trait'):
            if 'base32' in self.r.f['path']:
                return len(v) <= 63 and all(33 <= c <= 126 and c not in b'."\\' for c in v)
            return bool(is_valid(v))
        return True

    def tell(self, env, seqs, val, places):
        out = []
        for x in seqs:
            v = env[x]
            out.append('%s = %s' % (show(x), '%d bytes %s' % (len(v), v[:24].hex() + ('..' if len(v) > 24 else ''))))
        for k, v in env.items():
            if k not in seqs and k.op not in ('elem',):
                out.append('%s = %s' % (show(k), v))
        return '; '.join(out)[:300]


def flatT(z):
    out = []
    for y in z:
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, (tuple, frozenset)):
            out += flatT(y)
    return out


def labels(s):
    return 0 if s == b'.' else s.count(b'.')


def wire(s):
    return b'\0' if s == b'.' else b''.join(bytes([len(l) & 255]) + l for l in s.split(b'.'))
