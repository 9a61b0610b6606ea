"""Abstract interpreter over the monomorphised MIR dump.

Forward dataflow with per-block abstract states (a store of value terms plus a disjunction of fact
conjunctions), trace partitioning at merges, phi terms at loop heads, and interprocedural analysis of
local functions in calling context.  Nothing of the analysed program is executed.
"""
import heapq, re, sys
from terms import *
import facts as F
from facts import Conj, TOP

sys.setrecursionlimit(100000)
LOG = ('log', 0)          # store key of the sequence of external effects


class Prog:
    def __init__(self, j):
        self.j = j
        self.types = j['types']
        self.fns = j['fns']
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f['path'], []).append(f)
        self.bodies = {}
        self.adt = {}
        for t in self.types:
            if t['k'] in ('struct', 'enum', 'union'):
                self.adt.setdefault(t['p'], t)
            if t.get('p') == 'std::cmp::Ordering':
                for v in t['v']:
                    if v['d'] is not None and v['d'] > 127:
                        v['d'] -= 256
        for f in self.fns:
            if 'body' not in f:
                continue
            for bb in f['body']['bbs']:
                for s in bb['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] in ('closure', 'coroutine'):
                        self.types[s[2][1][1]]['i'] = s[2][1][2]

    def ty(self, i):
        return self.types[i]

    def deref_ty(self, i):
        t = self.types[i]
        while t['k'] in ('ref', 'ptr'):
            i = t['e']
            t = self.types[i]
        return i

    def body(self, f):
        b = self.bodies.get(f['id'])
        if b is None:
            b = self.bodies[f['id']] = Body(f['body'])
        return b

    def variants(self, path):
        return self.adt[path]['v']

    def variant_index(self, path, name):
        for i, v in enumerate(self.adt[path]['v']):
            if v['n'] == name:
                return i
        return None


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == 'drop':
        return [t[3]]
    if k == 'call':
        return [t[6]] if t[6] is not None else []
    if k == 'assert':
        return [t[4]]
    if k == 'yield':
        return [t[2]]
    return []


def op_locals(o, out):
    if o[0] in ('c', 'm'):
        place_locals(o[1], out)


def place_locals(p, out):
    out.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])


class Body:
    def __init__(self, b):
        self.b = b
        self.locals = b['locals']
        self.argc = b['argc']
        self.bbs = b['bbs']
        self.n = len(self.bbs)
        self.succ = [succs(x['t']) for x in self.bbs]
        self.succ = [[s for s in ss if not self.bbs[s]['c']] for ss in self.succ]
        self._order()
        self._live()
        self.dbg = {int(k): v for k, v in b['dbg'].items()}

    def _order(self):
        # reverse postorder, loop heads from DFS back edges, loop bodies kept contiguous
        n = self.n
        color = [0] * n
        post = []
        back = set()
        st = [(0, iter(self.succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(self.succ[v])))
                    break
                elif color[v] == 1:
                    back.add((u, v))
            else:
                color[u] = 2
                post.append(u)
                st.pop()
        self.reach = set(post)
        rpo = post[::-1]
        self.heads = {v for _, v in back}
        self.back = back
        preds = {u: [] for u in rpo}
        for u in rpo:
            for v in self.succ[u]:
                preds[v].append(u)
        self.preds = preds
        # natural loops
        self.loop = {}
        for h in self.heads:
            body = {h}
            stack = [u for u, v in back if v == h]
            while stack:
                x = stack.pop()
                if x in body:
                    continue
                body.add(x)
                stack += preds[x]
            self.loop[h] = body
        # order: topological with loops contiguous (sort by recursion)
        pos = {b: i for i, b in enumerate(rpo)}
        order = []

        def emit(blocks, skip_head):
            # blocks: set; collapse maximal inner loops
            inner = {}
            hs = [h for h in self.heads if h in blocks and h != skip_head]
            hs.sort(key=lambda h: -len(self.loop[h]))
            taken = set()
            for h in hs:
                if h in taken:
                    continue
                lb = self.loop[h] & blocks
                lb = {x for x in lb if x not in taken}
                inner[h] = lb
                taken |= lb
            rep = {}
            for h, lb in inner.items():
                for x in lb:
                    rep[x] = h
            nodes = {rep.get(x, x) for x in blocks}
            indeg = {x: 0 for x in nodes}
            outs = {x: set() for x in nodes}
            for u in blocks:
                for v in self.succ[u]:
                    if v not in blocks or (u, v) in back:
                        continue
                    a, b = rep.get(u, u), rep.get(v, v)
                    if a != b and b not in outs[a]:
                        outs[a].add(b)
                        indeg[b] += 1
            heap = [(pos[x], x) for x in nodes if indeg[x] == 0]
            heapq.heapify(heap)
            done = 0
            while heap:
                _, x = heapq.heappop(heap)
                done += 1
                if x in inner:
                    order.append(x)
                    emit(inner[x] - {x}, None)
                else:
                    order.append(x)
                for y in outs[x]:
                    indeg[y] -= 1
                    if indeg[y] == 0:
                        heapq.heappush(heap, (pos[y], y))
            if done != len(nodes):   # irreducible: fall back
                rest = [x for x in sorted(blocks, key=lambda q: pos[q]) if x not in order]
                order.extend(rest)
        emit(set(rpo), None)
        self.order = {b: i for i, b in enumerate(order)}

    def _live(self):
        n = self.n
        addr = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        for i in self.reach:
            bb = self.bbs[i]
            u, d = use[i], dfn[i]

            def use_(s):
                u.update(s - d)
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    x = set()
                    self._rv_locals(r, x)
                    if r[0] == 'ref' and r[1] and '*' not in r[2][1]:
                        addr.add(r[2][0])
                    if r[0] == 'rawptr':
                        addr.add(r[-1][0])
                    if s[1][1]:
                        place_locals(s[1], x)
                    use_(x)
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    use_({s[1][0]})
            t = bb['t']
            x = set()
            if t[0] == 'switch':
                op_locals(t[1], x)
            elif t[0] == 'call':
                c = t[1]
                if 'op' in c:
                    op_locals(c['op'], x)
                for a in t[2]:
                    op_locals(a, x)
                if t[4][1]:
                    place_locals(t[4], x)
            elif t[0] == 'assert':
                op_locals(t[1], x)
            elif t[0] == 'yield':
                op_locals(t[1], x)
            elif t[0] == 'ret':
                x.add(0)
            use_(x)
            if t[0] == 'call' and not t[4][1]:
                d.add(t[4][0])
            if t[0] == 'yield':
                d.add(t[3][0])
        live = [set() for _ in range(n)]
        ch = True
        rev = sorted(self.reach, key=lambda b: -self.order[b])
        while ch:
            ch = False
            for b in rev:
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                nl = use[b] | (out - dfn[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        self.live = live
        self.addr = addr

    def _rv_locals(self, r, x):
        k = r[0]
        if k == 'use':
            op_locals(r[1], x)
        elif k == 'rep':
            op_locals(r[1], x)
        elif k == 'ref':
            place_locals(r[2], x)
        elif k == 'rawptr':
            place_locals(r[-1], x)
        elif k == 'cast':
            op_locals(r[2], x)
        elif k == 'bin':
            op_locals(r[2], x)
            op_locals(r[3], x)
        elif k == 'un':
            op_locals(r[2], x)
        elif k == 'discr':
            place_locals(r[1], x)
        elif k == 'agg':
            for o in r[2]:
                op_locals(o, x)


class State:
    __slots__ = ('store', 'facts', '_k')

    def __init__(self, store, facts=TOP):
        self.store = store
        self.facts = facts
        self._k = None

    def copy(self):
        return State(dict(self.store), self.facts)

    def skey(self):
        return frozenset(self.store.items())

    def key(self):
        if self._k is None:
            self._k = (self.skey(), frozenset(self.facts))
        return self._k

    def assume(self, t, s):
        """New state restricted to t in s (None if infeasible)."""
        f = F.dnf_assume(self.facts, t, s)
        if not f:
            return None
        if f is self.facts or f == self.facts:
            return self.copy()
        return State(dict(self.store), f)

    def holds(self, t):
        """True/False if boolean term t is decided by the facts, else None."""
        v = {0: False, 1: False}
        for c in self.facts:
            s = F.cset(c, t)
            for k in (0, 1):
                if s.has(k):
                    v[k] = True
        if v[1] and not v[0]:
            return True
        if v[0] and not v[1]:
            return False
        return None


class Ev:
    """An event: something observable the analysed code may do, with the facts known there."""
    __slots__ = ('kind', 'name', 'args', 'facts', 'span', 'fn', 'ctx', 'site', 'data')

    def __init__(self, kind, name, args, facts, span, fn, ctx, site, data=None):
        self.kind, self.name, self.args, self.facts = kind, name, args, facts
        self.span, self.fn, self.ctx, self.site, self.data = span, fn, ctx, site, data

    def __repr__(self):
        return '<%s %s %s @%s in %s>' % (self.kind, self.name, [show(a) for a in self.args], self.span, self.fn)


class Frame:
    __slots__ = ('ctx', 'fn', 'body', 'events', 'cur', 'span', 'depth', 'chain')


RRVARIANTS = ('A', 'AAAA', 'NS', 'Txt', 'CName', 'DName', 'TLSA', 'DnsKey', 'DS', 'RRSig', 'NSec', 'NSec3')


class Limit(Exception):
    pass


class Interp:
    def __init__(self, prog, cuts=None, natives=None):
        self.P = prog
        import natives as N
        self.N = natives or N
        self.cuts = cuts or {}
        self.canon_name = frozenset(RRV + '.0' for RRV in RRVARIANTS) if cuts and 'RR::name' in cuts else ()
        self.phis = {}
        self.streams = {}    # iterator stored in a list -> the sequence it yields
        self.nexts = {}      # stream base -> places that call next() on it
        self.entries = {}    # (context, head) -> [(partition, state on an entry edge)]
        self.backs = {}      # (context, head) -> [(partition, state on a back edge)]
        self.exits = {}      # (context, head) -> [(block, block outside, states on that way out)]
        self.frames = {}     # context -> (function, depth)
        self.invs = {}       # (context, head) -> partition -> conditions known at the head
        self.lossy = 0       # joins outside of loop heads that lost conditions
        self.loops = {}      # (context, head) -> (blocks, states on the back edges)
        self.ltypes = {}
        self.tt = {}
        self.memo = {}
        self.steps = 0
        self.fns_analysed = set()
        self.unmodelled = {}
        self.maxsteps = 4000000
        self.maxparts = 40
        self.struct_eq = True     # PartialEq on ADTs is structural (checked separately)

    # ------------------------------------------------------------ types
    def note(self, t, ty):
        """Remember the type of an opaque term (used for field names and integer ranges)."""
        if ty is None or t.op in ('int', 'agg', 'ref', 'bytes', 'lin', 'arr', 'stream'):
            return
        if t not in self.tt:
            T_ = self.P.types[self.P.deref_ty(ty)]
            self.tt[t] = self.P.deref_ty(ty)
            k = T_['k']
            if k == 'bool':
                set_range(t, BOOL)
            elif k == 'int':
                b = T_['b']
                set_range(t, irange(-(1 << (b - 1)), (1 << (b - 1)) - 1) if T_['s'] else irange(0, (1 << b) - 1))
            elif k == 'char':
                set_range(t, irange(0, 0x10ffff))

    def opaque(self, ty, op, *a):
        t = mk(op, *a)
        self.note(t, ty)
        T_ = self.P.types[ty] if ty is not None else None
        if T_ is not None and T_['k'] == 'tuple':
            return tup(*[self.opaque(e, 'fld', t, str(i)) for i, e in enumerate(T_['f'])])
        return t

    def int_range(self, ty):
        T_ = self.P.types[ty]
        k = T_['k']
        if k == 'bool':
            return BOOL
        if k == 'char':
            return irange(0, 0x10ffff)
        if k == 'int':
            b = T_['b']
            return irange(-(1 << (b - 1)), (1 << (b - 1)) - 1) if T_['s'] else irange(0, (1 << b) - 1)
        return None

    # ------------------------------------------------------------ fields of values
    def field(self, v, i, variant, ty_of_v, fty):
        """Field i of value v (as enum variant `variant` if not None)."""
        if v.op == 'agg':
            if variant is not None and v.a[1] != variant:
                return mk('bottom')
            if i < len(v.a[2]):
                return v.a[2][i]
            return mk('bottom')
        if v.op in ('bottom', 'boxuninit'):
            return v
        name = str(i)
        T_ = self.P.types[self.P.deref_ty(ty_of_v)] if ty_of_v is not None else None
        if T_ is not None and T_['k'] in ('struct', 'enum', 'union'):
            vs = T_['v'][variant or 0]
            if i < len(vs['f']):
                name = vs['f'][i][0]
            if T_['k'] == 'enum':
                name = vs['n'] + '.' + name
        r = self.getfld(v, name)
        if fty is not None:
            self.note(r, fty)
        return r

    def getfld(self, v, name):
        if v.op == 'case':
            return self.case(v.a[0], [(s, self.getfld(x, name)) for s, x in v.a[1]])
        if v.op == 'ite':
            return mk('ite', v.a[0], self.getfld(v.a[1], name), self.getfld(v.a[2], name))
        if v.op == 'agg' and name.split('.')[-1].isdigit():
            return v.a[2][int(name.split('.')[-1])]
        if v.op == 'agg':
            p = v.a[0]
            if isinstance(p, str) and p in self.P.adt:
                vs = self.P.adt[p]['v'][v.a[1]]
                for k, f in enumerate(vs['f']):
                    if f[0] == name.split('.')[-1]:
                        return v.a[2][k]
        if name == 'name' and self.canon_name and v.op == 'fld' and v.a[1] in self.canon_name:
            ty = self.tt.get(v.a[0])
            if ty is not None and self.P.types[ty].get('p', '').endswith('rr::RR'):
                return mk('rrname', v.a[0])
        return mk('fld', v, name)

    def case(self, d, alts):
        vals = {v for _, v in alts}
        if len(vals) == 1:
            return alts[0][1]
        m = {}
        for s, v in alts:
            m[v] = iunion(m[v], s) if v in m else s
        return mk('case', d, tuple(sorted(((s, v) for v, s in m.items()), key=lambda p: p[0].iv)))

    def expand(self, v, ty, variant=None):
        """Opaque struct/tuple value as an aggregate of its fields."""
        if v.op == 'agg':
            return v
        T_ = self.P.types[self.P.deref_ty(ty)]
        k = T_['k']
        if k == 'tuple':
            return tup(*[self.field(v, i, None, ty, e) for i, e in enumerate(T_['f'])])
        if k in ('struct',) or (k == 'enum' and variant is not None):
            fs = T_['v'][variant or 0]['f']
            return mk('agg', T_['p'], variant or 0, tuple(self.field(v, i, variant, ty, f[1]) for i, f in enumerate(fs)))
        if k == 'closure':
            return mk('agg', ('closure', None), 0, tuple(self.field(v, i, None, ty, e) for i, e in enumerate(T_['f'])))
        return None

    # ------------------------------------------------------------ places
    def lookup(self, st, key, lty):
        v = st.store.get(key)
        if v is None:
            v = self.opaque(lty, 'uninit', mk('loc', str(key[0].id if isinstance(key[0], T) else key[0]), str(key[1])))
        return v

    def key_ty(self, key):
        if key == LOG:
            return None
        c = self.ltypes.get(key[0])
        if c is None:
            return None
        if isinstance(c, dict):
            return c.get(key[1])
        return c[key[1]] if isinstance(key[1], int) and key[1] < len(c) else None

    def read_proj(self, st, v, ty, proj, idxval):
        """Follow a MIR projection list from value v of type ty.  Returns (value, type)."""
        variant = None
        for e in proj:
            if e == '*':
                if v.op == 'ref':
                    v = self.load(st, v)
                if ty is not None:
                    T_ = self.P.types[ty]
                    if T_['k'] in ('ref', 'ptr'):
                        ty = T_['e']
                    elif T_['k'] == 'struct' and T_['p'].endswith('boxed::Box'):
                        ty = T_.get('a', [None])[0] if T_.get('a') else None
                continue
            if v.op == 'ref' :
                v = self.load(st, v)
            if e in ('oc', 'ub') or (isinstance(e, list) and e[0] in ('oc', 'ub')):
                continue
            k = e[0]
            if k == 'f':
                v = self.field(v, e[1], variant, ty, e[2])
                ty = e[2]
                variant = None
            elif k == 'd':
                variant = e[1]
            elif k == 'i':
                i = idxval(e[1])
                ety = self.elem_ty(ty)
                v = self.elem_note(idx(v, i), ety)
                ty = ety
            elif k == 'ci':
                ety = self.elem_ty(ty)
                i = sub(seqlen(v), num(e[1])) if e[3] else num(e[1])
                v = self.elem_note(idx(v, i), ety)
                ty = ety
            elif k == 'ss':
                L = seqlen(v)
                v = slice_(v, num(e[1]), sub(L, num(e[2])) if e[3] else num(e[2]))
            elif k == 'I':          # symbolic index (from index_mut)
                ety = self.elem_ty(ty)
                v = self.elem_note(idx(v, e[1]), ety)
                ty = ety
            elif k == 'S':          # symbolic sub-slice
                v = slice_(v, e[1], e[2])
            elif k == 'F':          # named field
                v = self.getfld(v, e[1])
                ty = None
        return v, ty

    def elem_note(self, v, ety):
        if ety is not None:
            self.note(v, ety)
        return v

    def elem_ty(self, ty):
        if ty is None:
            return None
        T_ = self.P.types[self.P.deref_ty(ty)]
        if T_['k'] in ('array', 'slice'):
            return T_['e']
        if T_['k'] == 'struct' and T_.get('a'):
            return T_['a'][0]
        return None

    def load(self, st, ref):
        if ref.op != 'ref':
            return ref
        key, proj = ref.a[0], ref.a[1]
        v = self.lookup(st, key, self.key_ty(key))
        v, _ = self.read_proj(st, v, self.key_ty(key), [list(e) if isinstance(e, tuple) else e for e in proj], lambda i: i)
        return v

    def val(self, st, v):
        n = 0
        while v.op == 'ref' and n < 20:
            v = self.load(st, v)
            n += 1
        return v

    def write_proj(self, st, v, ty, proj, new, idxval):
        if not proj:
            return new
        e = proj[0]
        rest = proj[1:]
        if v.op == 'boxuninit':
            st.store[(v.a[0], 'box')] = new
            st._k = None
            return v
        if e == '*':
            if v.op == 'ref':
                self.store_ref(st, v, rest, new, idxval)
                return v
            t2 = None
            if ty is not None:
                T_ = self.P.types[ty]
                if T_['k'] in ('ref', 'ptr'):
                    t2 = T_['e']
            return self.write_proj(st, v, t2, rest, new, idxval)
        if v.op == 'ref':
            self.store_ref(st, v, proj, new, idxval)
            return v
        k = e[0]
        if k in ('oc', 'ub'):
            return self.write_proj(st, v, ty, rest, new, idxval)
        if k == 'd':
            # (x as Variant).f = new
            if rest and rest[0][0] == 'f':
                a = v if v.op == 'agg' else self.expand(v, ty, e[1])
                if a is None or a.a[1] != e[1]:
                    return mk('unk', 'write', v)
                fs = list(a.a[2])
                fs[rest[0][1]] = self.write_proj(st, fs[rest[0][1]], rest[0][2], rest[1:], new, idxval)
                return mk('agg', a.a[0], a.a[1], tuple(fs))
            return mk('unk', 'write', v)
        if k == 'f':
            a = v if v.op == 'agg' else (self.expand(v, ty) if ty is not None and v.op not in ('uninit',) else None)
            if v.op == 'uninit' and ty is not None:
                a = self.expand(v, ty)
            if a is None or e[1] >= len(a.a[2]):
                return mk('unk', 'write', v)
            fs = list(a.a[2])
            fs[e[1]] = self.write_proj(st, fs[e[1]], e[2], rest, new, idxval)
            return mk('agg', a.a[0], a.a[1], tuple(fs))
        if k in ('i', 'ci', 'I'):
            ety = self.elem_ty(ty)
            if k == 'i':
                i = idxval(e[1])
            elif k == 'I':
                i = e[1]
            else:
                i = sub(seqlen(v), num(e[1])) if e[3] else num(e[1])
            old = idx(v, i) if rest else None
            if old is not None:
                self.elem_note(old, ety)
            return setidx(v, i, self.write_proj(st, old, ety, rest, new, idxval) if rest else new)
        if k == 'S':
            if rest:
                inner = self.write_proj(st, slice_(v, e[1], e[2]), ty, rest, new, idxval)
            else:
                inner = new
            return splice(v, e[1], inner)
        return mk('unk', 'write', v)

    def store_ref(self, st, ref, proj, new, idxval=lambda i: i):
        key = ref.a[0]
        full = [list(e) if isinstance(e, tuple) else e for e in ref.a[1]] + list(proj)
        v = self.lookup(st, key, self.key_ty(key))
        nv = self.write_proj(st, v, self.key_ty(key), full, new, idxval)
        st.store[key] = nv
        st._k = None

    # MIR place in frame
    def rd(self, st, fr, p, note_ty=True):
        key = (fr.ctx, p[0])
        lty = fr.body.locals[p[0]]
        v = st.store.get(key)
        if v is None:
            v = self.lookup(st, key, lty)
        if not p[1]:
            return v
        v, ty = self.read_proj(st, v, lty, p[1], lambda i: self.val(st, st.store.get((fr.ctx, i), mk('uninit', str(i)))))
        return v

    def wr(self, st, fr, p, new):
        key = (fr.ctx, p[0])
        if not p[1]:
            if new.op not in ('int', 'agg', 'ref', 'bytes', 'lin'):
                self.note(new, fr.body.locals[p[0]])
            st.store[key] = new
        else:
            lty = fr.body.locals[p[0]]
            v = st.store.get(key)
            if v is None:
                v = self.lookup(st, key, lty)
            nv = self.write_proj(st, v, lty, p[1], new, lambda i: self.val(st, st.store.get((fr.ctx, i), mk('uninit', str(i)))))
            st.store[key] = nv
        st._k = None

    def place_ty(self, fr, p):
        ty = fr.body.locals[p[0]]
        for e in p[1]:
            if e == '*':
                T_ = self.P.types[ty] if ty is not None else None
                ty = T_['e'] if T_ and T_['k'] in ('ref', 'ptr') else (T_.get('a') or [None])[0] if T_ and T_['k'] == 'struct' else None
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty

    def mkref(self, st, fr, p):
        """&mut place"""
        v = None
        key = (fr.ctx, p[0])
        proj = []
        cur = None
        for e in p[1]:
            if e == '*':
                cur = st.store.get(key) if not proj else self.load(st, mk('ref', key, tuple(proj)))
                if cur is not None and cur.op == 'ref':
                    key, proj = cur.a[0], list(cur.a[1])
                else:
                    # a mutable reference to something we have no location for, or a Box
                    proj.append('*')
            elif e[0] == 'i':
                proj.append(('I', self.val(st, st.store.get((fr.ctx, e[1]), mk('uninit', '?')))))
            elif e[0] == 'ci' and e[3]:
                base = self.load(st, mk('ref', key, tuple(proj)))
                proj.append(('I', sub(seqlen(base), num(e[1]))))
            elif e[0] == 'ci':
                proj.append(('I', num(e[1])))
            elif e[0] == 'ss':
                base = self.load(st, mk('ref', key, tuple(proj)))
                L = seqlen(base)
                proj.append(('S', num(e[1]), sub(L, num(e[2])) if e[3] else num(e[2])))
            else:
                proj.append(tuple(e) if isinstance(e, list) else e)
        return mk('ref', key, tuple(proj))

    # ------------------------------------------------------------ constants and operands
    def const(self, v, ty):
        if 'i' in v:
            return num(v['i'])
        if 'b' in v:
            return byts(bytes.fromhex(v['b']))
        if 'ab' in v:
            b = bytes.fromhex(v['ab'])
            T_ = self.P.types[ty] if isinstance(ty, int) else {}
            for _ in range(4):
                if T_.get('k') in ('ref', 'array', 'slice'):
                    T_ = self.P.types[T_['e']]
            if T_.get('n') == 'i8':
                return arr([num(x - 256 if x > 127 else x) for x in b])
            return byts(b)
        if 'rep' in v:
            x = self.const(v['rep'], None)
            return mk('rep', x, num(v['n']))
        if 'ref' in v:
            return self.const(v['ref'], None)
        if 'a' in v:
            return arr([self.const(x, None) for x in v['a']])
        if 'tup' in v:
            return tup(*[self.const(x, None) for x in v['tup']])
        if 'adt' in v:
            T_ = self.P.types[v['adt']]
            if T_['k'] == 'tuple':
                return tup(*[self.const(x, None) for x in v['f']])
            if T_['k'] == 'closure':
                return mk('agg', ('closure', T_.get('i')), 0, ())
            p = T_.get('p') or T_['n']
            fs = tuple(self.const(x, None) for x in v['f'])
            if T_['k'] == 'struct' and p.endswith(('vec::Vec', 'string::String')):
                return NIL
            return mk('agg', p, v['v'], fs)
        if 'fnty' in v:
            return mk('fnval', v['fnty'])
        if 'zst' in v:
            T_ = self.P.types[v['zst']]
            if T_['k'] == 'tuple':
                return UNIT
            if T_['k'] == 'closure':
                return mk('agg', ('closure', T_.get('i')), 0, ())
            if T_['k'] == 'fndef':
                return mk('fnval', v['zst'])
            if T_['k'] == 'struct':
                return mk('agg', T_['p'], 0, ())
            return mk('zst', T_['n'])
        if 'static' in v:
            return mk('static', v['static'])
        if 'fn' in v:
            return mk('fninst', v['fn'])
        return mk('kconst', str(v))

    def operand(self, st, fr, o):
        if o[0] == 'c':
            return self.rd(st, fr, o[1])
        if o[0] == 'm':
            v = self.rd(st, fr, o[1])
            if not o[1][1]:
                st.store.pop((fr.ctx, o[1][0]), None)
                st._k = None
            return v
        if o[0] == 'k':
            return self.const(o[1]['v'], o[1]['t'])
        if o[0] == 'rc':
            return num(1)      # runtime checks (debug assertions, overflow checks) are analysed as enabled
        return mk('unk', 'operand')

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]['t']
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            if r[1]:
                return self.mkref(st, fr, r[2])
            v = self.rd(st, fr, r[2])
            return v
        if k == 'rawptr':
            return self.rd(st, fr, r[-1])
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            return mk('rep', v, num(r[2])) if r[2] is not None else mk('unk', 'rep')
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'bin':
            a = self.val(st, self.operand(st, fr, r[2]))
            b = self.val(st, self.operand(st, fr, r[3]))
            return self.binop(st, r[1], a, b, self.op_ty(fr, r[2]), dty)
        if k == 'un':
            a = self.val(st, self.operand(st, fr, r[2]))
            if r[1] == 'Not':
                T_ = self.P.types[dty]
                if T_['k'] == 'bool':
                    return notb(a)
                if T_['k'] == 'int' and not T_['s']:
                    return sub(num((1 << T_['b']) - 1), a)
                return mk('unk', 'not', a)
            if r[1] == 'Neg':
                return scale(a, -1)
            if r[1] == 'PtrMetadata':
                return seqlen(a)
            return mk('unk', r[1], a)
        if k == 'discr':
            v = self.val(st, self.rd(st, fr, r[1]))
            return self.discr(v, self.place_ty(fr, r[1]))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            n = r[1][0]
            if n == 'tuple':
                return tup(*ops)
            if n == 'array':
                return arr(ops)
            if n == 'adt':
                T_ = self.P.types[r[1][1]]
                if T_['k'] == 'union' or (len(r[1]) > 3 and r[1][3] is not None and T_['k'] == 'union'):
                    return mk('unk', 'union')
                x = self.rebuilt(T_, r[1][2], ops)
                return mk('agg', T_['p'], r[1][2], tuple(ops)) if x is None else x
            if n in ('closure', 'coroutine'):
                return mk('agg', (n, r[1][2]), 0, tuple(ops))
            if n == 'rawptr':
                return ops[0]
            return mk('unk', n)
        return mk('unk', k)

    def rebuilt(self, T_, variant, ops):
        """The value all of whose fields, in order, a struct is put together from (as a derived clone does)."""
        if not ops or T_['k'] != 'struct' or any(o.op != 'fld' for o in ops):
            return None
        x = ops[0].a[0]
        fs = T_['v'][0]['f']
        if len(fs) != len(ops) or any(o.a[0] is not x or o.a[1] != f[0] for o, f in zip(ops, fs)):
            return None
        ty = self.tt.get(x)
        return x if ty is not None and self.P.types[self.P.deref_ty(ty)].get('p') == T_['p'] else None

    def discr(self, v, ty):
        if v.op == 'agg':
            p = v.a[0]
            T_ = self.P.adt.get(p) if isinstance(p, str) else None
            if T_:
                d = T_['v'][v.a[1]]['d']
                return num(d if d is not None else v.a[1])
            return num(v.a[1])
        if v.op == 'case':
            return self.case(v.a[0], [(s, self.discr(x, ty)) for s, x in v.a[1]])
        if v.op == 'ite':
            return mk('ite', v.a[0], self.discr(v.a[1], ty), self.discr(v.a[2], ty))
        t = mk('discr', v)
        if ty is not None:
            T_ = self.P.types[self.P.deref_ty(ty)]
            if T_['k'] == 'enum':
                set_range(t, iset(*[x['d'] if x['d'] is not None else i for i, x in enumerate(T_['v'])]))
                self.tt.setdefault(v, self.P.deref_ty(ty))
        return t

    def cast(self, st, fr, r):
        kind = r[1]
        v = self.operand(st, fr, r[2])
        dst = self.P.types[r[3]]
        src = self.P.types[r[4]] if len(r) > 4 and r[4] is not None else None
        if kind.startswith('IntToInt') or (dst['k'] in ('int', 'char') and src and src['k'] in ('int', 'char', 'bool', 'enum')):
            v = self.val(st, v)
            if src and src['k'] == 'enum' and v.op == 'agg':
                v = self.discr(v, r[4])
            return self.int_cast(st, v, dst, src)
        return v

    def int_cast(self, st, v, dst, src=None):
        if dst['k'] != 'int':
            return v
        bits = dst['b']
        if src is not None and src['k'] in ('int', 'bool', 'char'):
            self.note_int(v, src)
        if not dst['s']:
            s = F.EMPTYC
            lo = min((F.cset(c, v).lo() if F.cset(c, v).lo() is not None else -1) for c in st.facts)
            hi = max((F.cset(c, v).hi() if F.cset(c, v).hi() is not None else 1 << 200) for c in st.facts)
            if lo >= 0 and hi < (1 << bits):
                return v
            return wrap(bits, v)
        s = rng(v)
        if s.lo() is not None and s.hi() is not None and s.lo() >= -(1 << (bits - 1)) and s.hi() < (1 << (bits - 1)):
            return v
        t = mk('swrap', bits, v)
        set_range(t, irange(-(1 << (bits - 1)), (1 << (bits - 1)) - 1))
        return t

    def note_int(self, v, T_):
        if v.op in ('int', 'lin') or v in ranges:
            return
        if T_['k'] == 'bool':
            set_range(v, BOOL)
        elif T_['k'] == 'int':
            b = T_['b']
            if rng(v) == FULL:
                set_range(v, irange(-(1 << (b - 1)), (1 << (b - 1)) - 1) if T_['s'] else irange(0, (1 << b) - 1))

    def binop(self, st, op, a, b, aty, dty):
        T_ = self.P.types[aty] if aty is not None else {'k': '?'}
        isbool = T_['k'] == 'bool'
        isint = T_['k'] in ('int', 'char', 'bool')
        if isint:
            self.note_int(a, T_)
            if op not in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked', 'ShlWithOverflow'):
                self.note_int(b, T_)
        bits = T_.get('b', 64)
        if op in ('Eq', 'Ne'):
            r = (self.bool_eq(a, b) if isbool else eqi(a, b)) if isint else eq(a, b)
            return notb(r) if op == 'Ne' else r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Lt':
                return lt(a, b)
            if op == 'Le':
                return le(a, b)
            if op == 'Gt':
                return lt(b, a)
            return le(b, a)
        if op == 'Cmp':
            return mk('cmp3', 'int', a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            ex = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            R = self.int_range(aty) if isint else FULL
            if op.endswith('WithOverflow'):
                o = bor(lt(ex, num(R.lo())), lt(num(R.hi()), ex))
                return tup(ex, o)
            if op.endswith('Unchecked'):
                return ex
            r = rng(ex)
            if r.lo() is not None and r.lo() >= R.lo() and r.hi() is not None and r.hi() <= R.hi():
                return ex
            return wrap(bits, ex) if not T_.get('s') else mk('swrap', bits, ex)
        if base == 'Div':
            if is_num(b) and b.a[0] > 0 and (rng(a).lo() or 0) >= 0 and rng(a).lo() is not None:
                return div(a, b.a[0])
            return mk('div', a, b)
        if base == 'Rem':
            if is_num(b) and b.a[0] > 0 and rng(a).lo() is not None and rng(a).lo() >= 0:
                return mod(a, b.a[0])
            return mk('mod', a, b)
        if base == 'BitAnd':
            return band(a, b) if isbool else bitand(a, b)
        if base == 'BitOr':
            return bor(a, b) if isbool else bitor(a, b)
        if base == 'BitXor':
            if isbool:
                return notb(self.bool_eq(a, b))
            return bitxor(a, b)
        if base == 'Shl':
            return shl(a, b, bits)
        if base == 'Shr':
            if rng(a).lo() is not None and rng(a).lo() >= 0:
                return shr(a, b)
            return mk('sar', a, b)
        return mk('unk', op, a, b)

    def bool_eq(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if is_num(x):
                return y if x.a[0] else notb(y)
        return mk('bor', *sorted((band(a, b), band(notb(a), notb(b))), key=lambda t: t.id))

    # ------------------------------------------------------------ running functions
    def run_root(self, fid, args=None, extra_store=None, facts=TOP):
        """Analyse function instance fid with opaque parameters."""
        f = self.P.fns[fid]
        ctx = mk('ctx', 'root', fid)
        st = State({LOG: NIL}, facts)
        if extra_store:
            st.store.update(extra_store)
        body = self.P.body(f)
        vals = []
        for i in range(body.argc):
            if args and args[i] is not None:
                vals.append(args[i])
                continue
            vals.append(self.param_value(st, body, i, 'p%d' % i))
        self.pvals = vals
        rets, evs = self.run(f, vals, st, ctx)
        # an async fn: what it does is what its body does when polled to completion
        d = 0
        while len(rets) == 1 and rets[0][1].op == 'agg' and isinstance(rets[0][1].a[0], tuple) and rets[0][1].a[0][0] == 'coroutine' and d < 4:
            d += 1
            st2, co = rets[0]
            g = self.P.fns[co.a[0][1]]
            rets, evs2 = self.run(g, [co, mk('zst', 'resume')], st2, mk('ctx', ctx, 'async', g['id']))
            evs = evs + evs2
        return rets, evs

    def param_value(self, st, body, i, name=None):
        ty = body.locals[i + 1]
        n = name or body.dbg.get(i + 1) or 'arg%d' % i
        T_ = self.P.types[ty]
        if T_['k'] == 'ref' and T_['mut']:
            key = ('in', n)
            self.ltypes.setdefault('in', {})[n] = T_['e']
            inner = self.P.types[T_['e']]
            st.store[key] = self.opaque(T_['e'], 'param', n)
            return mk('ref', key, ())
        return self.opaque(ty, 'param', n)

    def resume(self, ctx, block, states):
        """What the rest of the function run in context ctx returns when it goes on at a block with the given states."""
        f, depth = self.frames[ctx]
        keep = ('phis', 'entries', 'backs', 'exits', 'invs', 'loops', 'memo', 'streams', 'nexts', 'unmodelled', 'tt', 'ltypes')
        saved = {k: getattr(self, k) for k in keep}
        for k in keep:
            setattr(self, k, dict(saved[k]))
        try:
            return self.run(f, (), states[0], ctx, depth, (block, states))[0]
        finally:
            for k in keep:
                setattr(self, k, saved[k])

    def run(self, f, args, st, ctx, depth=0, at=None):
        """Returns ([(state, value)], events)."""
        body = self.P.body(f)
        key = (f['id'], ctx, tuple(args), st.key()) if at is None else None
        m = self.memo.get(key)
        if m is not None:
            return [(s.copy(), v) for s, v in m[0]], m[1]
        self.frames[ctx] = (f, depth)
        self.fns_analysed.add(f['full'])
        self.ltypes[ctx] = body.locals
        fr = Frame()
        fr.ctx = ctx
        fr.fn = f
        fr.body = body
        fr.depth = depth
        st = st.copy()
        for i, a in enumerate(args):
            st.store[(ctx, i + 1)] = a
            if a.op not in ('int', 'agg', 'ref', 'bytes', 'lin'):
                self.note(a, body.locals[i + 1])
        first = 0
        in_edges = {0: {'entry': [st]}}
        if at is not None:
            first = at[0]
            in_edges = {first: {'entry': [s.copy() for s in at[1]]}}
        heads = {}
        done_in = {}
        events = {}
        rets = {}
        heap = [(body.order[first], first)]
        queued = {first}
        visits = {}
        loops_of = {b: [h for h in body.loop if b in body.loop[h]] for b in body.reach}
        while heap:
            _, b = heapq.heappop(heap)
            queued.discard(b)
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Limit('step limit')
            visits[b] = visits.get(b, 0) + 1
            inc = in_edges.get(b, {})
            if b in body.heads:
                entry_key = frozenset((p, s.key()) for p, ss in inc.items() if (p, b) not in body.back for s in ss)
                h = heads.get(b)
                if h is None or h['entry'] != entry_key:
                    # fresh start of this loop for a new entry state
                    for p in list(inc):
                        if (p, b) in body.back:
                            del inc[p]
                    h = heads[b] = {'entry': entry_key, 'inv': {}, 'n': 0, 'lim': 12}
                h['n'] += 1
                states, changed = self.head_join(fr, b, inc, h)
                if not changed:
                    continue
            else:
                states = [self.trim(s, fr, b) for ss in inc.values() for s in ss]
                states = self.merge(states, fr, b)
            outs = {}
            evs = []
            rr = []
            fr.events = evs
            for s in states:
                self.exec_block(fr, b, s.copy(), outs, rr)
            events[b] = evs
            rets[b] = rr
            for sc in body.succ[b]:
                new = outs.get(sc, [])
                old = in_edges.setdefault(sc, {}).get(b)
                nk = frozenset(s.key() for s in new)
                if old is None or frozenset(s.key() for s in old) != nk:
                    if old is None and not new:
                        continue
                    in_edges[sc][b] = new
                    if sc not in queued:
                        queued.add(sc)
                        heapq.heappush(heap, (body.order[sc], sc))
        # record what flows into each loop phi
        for b, h in heads.items():
            self.record_phis(fr, b, in_edges.get(b, {}), h)
            self.entries[(ctx, b)] = [(self.skeleton(t, fr, b) if h['n'] < h['lim'] else (), t) for p, ss in in_edges.get(b, {}).items() if (p, b) not in body.back
                                      for t in [self.trim(s, fr, b) for s in ss]]
            self.backs[(ctx, b)] = [(self.skeleton(t, fr, b) if h['n'] < h['lim'] else (), t) for p, ss in in_edges.get(b, {}).items() if (p, b) in body.back
                                    for t in [self.trim(s, fr, b) for s in ss]]
            self.invs[(ctx, b)] = {k: s.facts for k, s in h['inv'].items()}
            self.exits[(ctx, b)] = [(p, sc, in_edges[sc][p]) for p in sorted(body.loop[b]) for sc in body.succ[p] if sc not in body.loop[b] and in_edges.get(sc, {}).get(p)]
            self.loops[(ctx, b)] = (body.loop[b], [s for p, ss in in_edges.get(b, {}).items() if (p, b) in body.back for s in ss])
        allev = [e for b in sorted(events, key=lambda x: body.order[x]) for e in events[b]]
        allret = [x for b in sorted(rets, key=lambda x: body.order[x]) for x in rets[b]]
        out = self.merge_rets(allret, fr)
        if key is not None:
            self.memo[key] = (out, allev)
        return [(s.copy(), v) for s, v in out], allev

    # ------------------------------------------------------------ merging
    def trim(self, s, fr, b):
        live = fr.body.live[b]
        addr = fr.body.addr
        loop = fr.body.loop
        dead = [k for k in s.store if k[0] is fr.ctx and isinstance(k[1], int) and k[1] not in live and k[1] not in addr
                or k[0] in ('fa', 'cur') and k[1] is fr.ctx and b not in loop[k[2]]]
        if not dead:
            return s
        st = dict(s.store)
        for k in dead:
            del st[k]
        return State(st, s.facts)

    def merge(self, states, fr, b):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.skey(), []).append(s)
        out = []
        for k, ss in groups.items():
            if len(ss) == 1:
                out.append(ss[0])
            else:
                out.append(State(ss[0].store, F.dnf_norm([c for s in ss for c in s.facts])))
        if len(out) > 1:
            out = self.gamma(out)
        if len(out) > self.maxparts:
            out = self.force_join(out, fr, b)
        return out

    def gamma(self, states):
        """Join states whose facts differ in one boolean term and whose stores differ only in appended data."""
        states = list(states)
        ch = True
        while ch and len(states) > 1:
            ch = False
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    m = self.gamma2(states[i], states[j])
                    if m is not None:
                        states[j] = m
                        states.pop(i)
                        ch = True
                        break
                if ch:
                    break
        return states

    def gamma2(self, x, y):
        if x.store.keys() != y.store.keys():
            return None
        diff = [k for k, v in x.store.items() if y.store[k] is not v]
        if len(diff) > 4:
            return None
        for k in diff:
            if not self.gammable(x.store[k], y.store[k]):
                return None
        # the distinguishing term
        if len(x.facts) != len(y.facts) or len(x.facts) > 8:
            return None
        cands = None
        for c in x.facts:
            ks = set(c.d)
            cands = ks if cands is None else cands & ks
        for t in cands or ():
            sx = x.facts[0].d[t]
            if any(c.d[t] != sx for c in x.facts):
                continue
            sy = None
            ok = True
            for c in y.facts:
                o = c.d.get(t)
                if o is None or (sy is not None and o != sy):
                    ok = False
                    break
                sy = o
            if not ok or sy is None or not iinter(sx, sy).empty():
                continue
            if t.op == 'done':
                continue
            rx = frozenset(frozenset((k, v) for k, v in c.d.items() if k is not t) for c in x.facts)
            ry = frozenset(frozenset((k, v) for k, v in c.d.items() if k is not t) for c in y.facts)
            if rx != ry:
                continue
            u = iunion(sx, sy)
            cond = inset(t, sx) if not (t.op in _BOOLS) else (t if sx.single() == 1 else notb(t))
            st = dict(x.store)
            for k in diff:
                st[k] = self.gval(cond, x.store[k], y.store[k])
            fs = []
            for r in rx:
                d = dict(r)
                if u != rng(t):
                    d[t] = u
                fs.append(Conj(d))
            return State(st, F.dnf_norm(fs))
        return None

    def gammable(self, a, b):
        if a is b:
            return True
        if a.op == 'agg' and b.op == 'agg':
            return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and \
                all(self.gammable(p, q) for p, q in zip(a.a[2], b.a[2]))
        return self.prefix(a, b) is not None

    def prefix(self, a, b):
        """longest common prefix of two appended sequences"""
        if not (a.op == 'ext' or b.op == 'ext' or (a.op in ('bytes', 'be') and b.op in ('bytes', 'be', 'flat', 'lower'))):
            return None
        pa = [a]
        x = a
        while x.op == 'ext':
            x = x.a[0]
            pa.append(x)
        s = {t.id for t in pa}
        y = b
        while True:
            if y.id in s:
                return y
            if y.op != 'ext':
                break
            y = y.a[0]
        if (a.op == 'ext' or a.op in ('bytes', 'be', 'flat')) and (b.op == 'ext' or b.op in ('bytes', 'be', 'flat')):
            ra, rb = pa[-1], y
            if ra.op in ('bytes', 'be', 'flat', 'lower') and rb.op in ('bytes', 'be', 'flat', 'lower'):
                return NIL
        return None

    def suffix(self, a, p):
        if a is p:
            return NIL
        if p.op == 'bytes' and not p.a[0]:
            return a
        return ext(self.suffix(a.a[0], p), a.a[1])

    def gval(self, cond, a, b):
        if a is b:
            return a
        if a.op == 'agg':
            return mk('agg', a.a[0], a.a[1], tuple(self.gval(cond, p, q) for p, q in zip(a.a[2], b.a[2])))
        p = self.prefix(a, b)
        sa, sb = self.suffix(a, p), self.suffix(b, p)
        c = cond
        if c.op == 'not':
            c, sa, sb = c.a[0], sb, sa
        for x, y, k in ((sa, sb, True), (sb, sa, False)):
            # nothing if y is empty, else y
            if x is NIL and (c.op == 'in' and c.a[0] is seqlen(y) and (c.a[1].single() == 0 if k else not c.a[1].has(0) and c.a[1].lo() == 1 and c.a[1].single() is None)):
                return ext(p, y)
        return ext(p, mk('ite', c, sa, sb))

    def force_join(self, states, fr, b):
        """Too many partitions: join into one per skeleton with phi values."""
        self.lossy += 1
        groups = {}
        for s in states:
            groups.setdefault(self.skeleton(s, fr, b), []).append(s)
        if len(groups) > self.maxparts // 2:
            groups = {(): states}
        out = []
        for k, ss in groups.items():
            j = ss[0]
            for s in ss[1:]:
                j = self.join2(j, s, fr, b, ('j',) + k)
            rec = self.phis
            for s in ss:
                self.record_into(j.store, s, j)
            out.append(j)
        return out

    def skeleton(self, s, fr, b):
        """Values of live booleans / enum shapes of the current frame: the partition key at loop heads."""
        sk = []
        for k in sorted((k for k in s.store if k[0] is fr.ctx and isinstance(k[1], int)), key=lambda k: k[1]):
            v = s.store[k]
            T_ = self.P.types[fr.body.locals[k[1]]]
            self._skel(v, T_, (k[1],), sk, 0)
        return tuple(sk)

    def _skel(self, v, T_, path, sk, d):
        if T_['k'] == 'bool' and v.op == 'int':
            sk.append((path, v.a[0]))
        elif T_['k'] == 'enum' and v.op == 'agg':
            sk.append((path, v.a[1]))
        elif T_['k'] in ('struct', 'tuple') and v.op == 'agg' and d < 2:
            fs = [f[1] for f in T_['v'][0]['f']] if T_['k'] == 'struct' else T_['f']
            for i, (x, t) in enumerate(zip(v.a[2], fs)):
                self._skel(x, self.P.types[t], path + (i,), sk, d + 1)
        elif v.op == 'stream':
            # a short literal sequence is gone through element by element
            sk.append((path, v.a[0].id, v.a[1]) + (('lit', v.a[2]) if isinstance(v.a[2], int) and self.N.literal(v) is not None else ()))

    def head_join(self, fr, b, inc, h):
        inv = h['inv']
        changed = False
        groups = {}
        for p, ss in inc.items():
            for s in ss:
                s = self.fa_update(fr, b, self.trim(s, fr, b), (p, b) in fr.body.back)
                if h['lim'] == 12 and any('lit' in x[3:] for x in self.skeleton(s, fr, b)):
                    h['lim'] = 40
                groups.setdefault(self.skeleton(s, fr, b) if h['n'] < h['lim'] else (), []).append(s)
        if h['n'] >= h['lim'] and len(inv) > 1:
            # give up partitioning at this head
            old = list(inv.values())
            inv.clear()
            groups.setdefault((), []).extend(old)
        if len(groups) + len(inv) > 2 * h['lim']:
            old = list(inv.values())
            inv.clear()
            groups = {(): [s for ss in groups.values() for s in ss] + old}
            h['n'] = h['lim']
        for k, ss in groups.items():
            j = inv.get(k)
            for s in ss:
                if j is None:
                    j = s
                else:
                    j = self.join2(j, s, fr, b, k)
            if k not in inv or inv[k].key() != j.key():
                inv[k] = j
                changed = True
        return list(inv.values()), changed

    # ------------------------------------------------------------ what held of every element a loop has consumed
    # The state at a loop head carries, per call of next() in the loop, the alternatives one of which held of each
    # element of every completed iteration ('fa'); 'cur' names the element of the current iteration.  When next()
    # reports the end, this becomes the fact that no element fails all of them.
    def fa_join(self, v, w):
        m = dict(v.a[0])
        for k, x in w.a[0]:
            m[k] = self.fa_cap(m[k], x) if k in m else x
        return mk('falts', frozenset(m.items()), v.a[1] | w.a[1])

    def fa_cap(self, x, y):
        if x is None or y is None:
            return None
        z = x | y
        return z if len(z) <= 6 and frozenset() not in z else None

    def fa_update(self, fr, b, s, back):
        key = ('fa', fr.ctx, b)
        ck = ('cur', fr.ctx, b)
        store = dict(s.store)
        cur = store.pop(ck, None)
        old = store.get(key)
        if not back or old is None:
            dirty = set()
            for k, v in store.items():
                for x in (v.a[2] if v.op == 'agg' else (v,)):
                    if x.op == 'stream' and x.a[2] != 0:
                        dirty.add(x.a[0])
            store[key] = mk('falts', frozenset(), frozenset(dirty))
            return State(store, s.facts)
        m = dict(old.a[0])
        for site, base, e in cur.a[0] if cur is not None else ():
            alts = self.fa_alts(fr, b, s, e)
            if alts is not None and self.N.next_sites(self, fr, b, base) > 1:
                alts = None
            k = (site, base)
            m[k] = self.fa_cap(m[k], alts) if k in m else alts
        store[key] = mk('falts', frozenset(m.items()), old.a[1])
        return State(store, s.facts)

    def fa_alts(self, fr, b, s, e):
        N = self.N
        bv = mk('elem', e.a[0], mk('bv', N.BV.level + 1))
        if e in ranges:
            ranges.setdefault(bv, ranges[e])
        out = set()
        for c in s.facts:
            d = []
            for t, r in c.d.items():
                es = N.elems_of(t)
                if e not in es or t.op in ('done', 'falts') or self.variant(t, fr, b, e):
                    continue
                d.append((t, r))
            d = N.clean_delta(frozenset(d), {e})
            if not d or len(d) > 8:
                return None
            d2 = []
            for t, r in d:
                t2 = subst(t, {e: bv})
                if is_num(t2):
                    return None
                if t in ranges and t2 not in ranges:
                    ranges[t2] = ranges[t]
                d2.append((t2, r))
            out.add(frozenset(d2))
        return frozenset(out) if 0 < len(out) <= 6 else None

    def variant(self, t, fr, b, e):
        loop = fr.body.loop[b]
        for x in subterms(t):
            if x is e:
                continue
            if x.op in ('unk', 'havoc', 'opq', 'rec', 'collect', 'uninit', 'count', 'unmod'):
                return True
            if x.op == 'phi':
                c, bb = x.a[0], x.a[1]
            elif x.op == 'elem' and x.a[1].op == 'site':
                c, bb = x.a[1].a[0], x.a[1].a[1]
            elif x.op == 'elem' and x.a[1].op != 'bv':
                return True
            else:
                continue
            if self.in_loop(c, bb, fr, loop):
                return True
        return False

    def in_loop(self, c, bb, fr, loop):
        while c is not fr.ctx:
            if c.op != 'ctx' or isinstance(c.a[0], str) or isinstance(c.a[1], str):
                return False
            bb = c.a[1].a[0]
            c = c.a[0]
        return bb in loop

    def join2(self, a, c, fr, b, pk):
        """Join of two states at loop head b (partition pk)."""
        store = {}
        for k, v in a.store.items():
            w = c.store.get(k)
            if w is None:
                continue
            if k[0] == 'fa' and v is not w:
                store[k] = self.fa_join(v, w)
                continue
            if k[0] == 'cur' and v is not w:
                continue
            store[k] = v if v is w else self.joinval(v, w, fr.ctx, b, pk, k, (), self.key_ty(k))
        fs = []
        for x in a.facts:
            for y in c.facts:
                if F.weaker(x, y):
                    fs.append(y)
                elif F.weaker(y, x):
                    fs.append(x)
                else:
                    fs.append(F.common(x, y))
        # a disjunction is only kept when every incoming conjunction implies one of its members
        fs = F.dnf_norm(fs)
        if len(fs) > 1:
            fs = (F.dnf_common(list(a.facts) + list(c.facts)),)
        return State(store, fs)

    def joinval(self, v, w, ctx, b, pk, key, path, ty):
        if v is w:
            return v
        if v.op == 'phi' and v.a[0] is ctx and v.a[1] == b and v.a[2] == pk and v.a[3] == key and v.a[4] == path:
            return v
        if w.op == 'phi' and w.a[0] is ctx and w.a[1] == b and w.a[2] == pk and w.a[3] == key and w.a[4] == path:
            return w
        if v.op == 'agg' and w.op == 'agg' and v.a[0] == w.a[0] and v.a[1] == w.a[1] and len(v.a[2]) == len(w.a[2]):
            T_ = self.P.types[self.P.deref_ty(ty)] if ty is not None else None
            ftys = [None] * len(v.a[2])
            if T_ is not None:
                if T_['k'] in ('struct', 'enum') and v.a[1] < len(T_['v']):
                    ftys = [f[1] for f in T_['v'][v.a[1]]['f']]
                elif T_['k'] in ('tuple', 'closure'):
                    ftys = T_['f']
                elif T_['k'] == 'coroutine':
                    ftys = (T_['f'] or []) + [None] * len(v.a[2])
            return mk('agg', v.a[0], v.a[1], tuple(self.joinval(p, q, ctx, b, pk, key, path + (i,), ftys[i] if i < len(ftys) else None)
                                                   for i, (p, q) in enumerate(zip(v.a[2], w.a[2]))))
        if ty is not None and key[0] == 'in' and not path and (v.op == 'agg') != (w.op == 'agg') and not (v.op in ('unk', 'bottom', 'phi') or w.op in ('unk', 'bottom', 'phi')):
            # a struct written in part: what it was before is taken apart into its fields
            T_ = self.P.types[self.P.deref_ty(ty)]
            x, y = (v, w) if v.op == 'agg' else (w, v)
            if T_['k'] == 'struct' and len(T_['v']) == 1 and len(T_['v'][0]['f']) == len(x.a[2]) and x.a[1] == 0:
                z = mk('agg', x.a[0], x.a[1], tuple(mk('fld', y, f[0]) for f in T_['v'][0]['f']))
                if v.op == 'agg':
                    w = z
                else:
                    v = z
                return self.joinval(v, w, ctx, b, pk, key, path, ty)
        if v.op == 'stream' and w.op == 'stream' and v.a[0] is w.a[0] and v.a[1] == w.a[1]:
            return mk('stream', v.a[0], v.a[1], '*')
        if v.op == 'arr' and w.op == 'arr' and len(v.a[0]) == len(w.a[0]) and len(v.a[0]) <= 64:
            ety = self.elem_ty(ty)
            return arr([self.joinval(p, q, ctx, b, pk, key, path + (i,), ety) for i, (p, q) in enumerate(zip(v.a[0], w.a[0]))])
        if v.op == 'ref' and w.op == 'ref':
            return mk('unk', 'refjoin')
        if v.op in ('unk', 'bottom'):
            return v
        if w.op in ('unk', 'bottom'):
            return w
        t = mk('phi', ctx, b, pk, key, path)
        self.note(t, ty)
        return t

    def under(self, w, phi):
        """The part of value w of the place of a loop value that the loop value stands for."""
        if phi.a[4] and phi.a[3][0] == 'in' and w is not None and w.op not in ('agg', 'arr'):
            w = self.spread(w, phi.a[3])
        for i in phi.a[4]:
            if w is None:
                break
            w = w.a[2][i] if w.op == 'agg' and i < len(w.a[2]) else w.a[0][i] if w.op == 'arr' else None
        return w

    def spread(self, w, key):
        """An opaque struct as the aggregate of its fields."""
        ty = self.key_ty(key)
        T_ = self.P.types[self.P.deref_ty(ty)] if ty is not None else None
        if T_ is None or T_['k'] != 'struct' or len(T_['v']) != 1:
            return w
        return mk('agg', T_['p'], 0, tuple(mk('fld', w, f[0]) for f in T_['v'][0]['f']))

    def phi_paths(self, v, ctx, b, acc):
        if v.op == 'phi':
            acc.append(v)
        elif v.op == 'agg':
            for x in v.a[2]:
                self.phi_paths(x, ctx, b, acc)
        elif v.op == 'arr':
            for x in v.a[0]:
                self.phi_paths(x, ctx, b, acc)

    def record_into(self, store, s, j):
        for k, v in store.items():
            acc = []
            self.phi_paths(v, None, None, acc)
            for phi in acc:
                if phi.a[3] != k:
                    continue
                w = self.under(s.store.get(k), phi)
                if w is not None and w is not phi:
                    self.phis.setdefault(phi, []).append((w, s.facts))

    def record_phis(self, fr, b, inc, h):
        for k, inv in h['inv'].items():
            acc = []
            for key, v in inv.store.items():
                self.phi_paths(v, fr.ctx, b, acc)
            for phi in acc:
                if phi.a[0] is fr.ctx and phi.a[1] == b and phi.a[2] == k:
                    self.phis[phi] = []
        for p, ss in inc.items():
            for s in ss:
                s = self.trim(s, fr, b)
                k = self.skeleton(s, fr, b) if h['n'] < h['lim'] else ()
                if k not in h['inv']:
                    k = ()
                inv = h['inv'].get(k)
                if inv is None:
                    continue
                for key, v in inv.store.items():
                    acc = []
                    self.phi_paths(v, fr.ctx, b, acc)
                    for phi in acc:
                        if not (phi.a[0] is fr.ctx and phi.a[1] == b and phi.a[2] == k and phi.a[3] == key):
                            continue
                        w = self.under(s.store.get(key), phi)
                        if w is not None:
                            self.phis[phi].append((w, s.facts))

    def merge_rets(self, rets, fr):
        """Drop the frame, merge equal outcomes, turn complete case splits into case terms."""
        groups = {}
        for s, v in rets:
            st = {k: x for k, x in s.store.items() if k[0] is not fr.ctx and not (k[0] in ('fa', 'cur') and k[1] is fr.ctx)}
            st[('ret', 0)] = v
            s2 = State(st, s.facts)
            groups.setdefault(s2.skey(), []).append(s2)
        out = []
        for k, ss in groups.items():
            out.append(ss[0] if len(ss) == 1 else State(ss[0].store, F.dnf_norm([c for s in ss for c in s.facts])))
        if len(out) > 1:
            out = self.gamma(out)
        if len(out) > 1:
            out = self.case_join(out)
        res = []
        for s in out:
            st = dict(s.store)
            v = st.pop(('ret', 0))
            res.append((State(st, s.facts), v))
        return res

    def case_join(self, states):
        rk = ('ret', 0)
        byrest = {}
        for s in states:
            rest = frozenset((k, v) for k, v in s.store.items() if k != rk)
            byrest.setdefault(rest, []).append(s)
        out = []
        for rest, ss in byrest.items():
            if len(ss) < 2:
                out += ss
                continue
            t = None
            cand = None
            for s in ss:
                for c in s.facts:
                    ks = {k for k in c.d if k.op == 'discr' and len(rng(k).iv) and rng(k).hi() is not None and rng(k).hi() >= 3}
                    cand = ks if cand is None else cand & ks
            done = False
            for t in cand or ():
                alts = []
                base = None
                ok = True
                used = EMPTY
                for s in ss:
                    d = s.facts[0].d[t]
                    if any(c.d[t] != d for c in s.facts) or not iinter(used, d).empty():
                        ok = False
                        break
                    used = iunion(used, d)
                    r = frozenset(frozenset((k, v) for k, v in c.d.items() if k is not t) for c in s.facts)
                    if base is not None and r != base:
                        ok = False
                        break
                    base = r
                    alts.append((d, s.store[rk]))
                if ok:
                    vals = [v for _, v in alts]
                    # booleans / enum shapes stay partitioned: control flow depends on them
                    fs = []
                    for r in base:
                        d = dict(r)
                        if used != rng(t):
                            d[t] = used
                        fs.append(Conj(d))
                    st = dict(ss[0].store)
                    st[rk] = self.case(t, alts)
                    if any(v.op == 'agg' for v in vals) or all(v.op == 'int' and v.a[0] in (0, 1) for v in vals):
                        continue
                    out.append(State(st, F.dnf_norm(fs)))
                    done = True
                    break
            if not done:
                out += ss
        return out

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, b, st, outs, rets):
        bb = fr.body.bbs[b]
        fr.cur = b
        for s in bb['s']:
            k = s[0]
            if k == '=':
                dty = fr.body.locals[s[1][0]] if not s[1][1] else self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], dty)
                self.wr(st, fr, s[1], v)
            elif k == 'sdead':
                if (fr.ctx, s[1]) in st.store and s[1] not in fr.body.addr:
                    pass
                st.store.pop((fr.ctx, s[1]), None)
                st._k = None
            elif k == 'sd':
                self.wr(st, fr, s[1], mk('agg', self.P.types[self.place_ty(fr, s[1])]['p'], s[2], ()))
        t = bb['t']
        k = t[0]
        if k == 'goto':
            outs.setdefault(t[1], []).append(st)
        elif k == 'drop':
            outs.setdefault(t[3], []).append(st)
        elif k == 'ret':
            rets.append((st, st.store.get((fr.ctx, 0), UNIT)))
        elif k == 'switch':
            v = self.val(st, self.operand(st, fr, t[1]))
            if is_num(v):
                for val, bb2 in t[3]:
                    if val == v.a[0] or (val >= (1 << 63) and val - (1 << 64) == v.a[0]) or self._neg(val, t[2]) == v.a[0]:
                        outs.setdefault(bb2, []).append(st)
                        return
                if t[4] is not None:
                    outs.setdefault(t[4], []).append(st)
                return
            T_ = self.P.types[t[2]]
            if T_['k'] in ('int', 'bool', 'char'):
                self.note_int(v, T_)
            rest = EMPTY
            for val, bb2 in t[3]:
                val = self._neg(val, t[2])
                s2 = st.assume(v, iset(val))
                rest = iunion(rest, iset(val))
                if s2 is not None:
                    outs.setdefault(bb2, []).append(s2)
            if t[4] is not None and not fr.body.bbs[t[4]]['c']:
                s2 = st.assume(v, icompl(rest))
                if s2 is not None:
                    outs.setdefault(t[4], []).append(s2)
        elif k == 'assert':
            c = self.val(st, self.operand(st, fr, t[1]))
            exp = t[2]
            kind = t[3][0]
            if kind == 'otherassert':      # pointer alignment / null checks of compiler generated box code
                outs.setdefault(t[4], []).append(st)
                return
            good = c if exp else notb(c)
            if not (is_num(good) and good.a[0] == 1):
                fr.events.append(Ev('assert', kind, (good,), st.facts, t[-1], fr.fn['full'], fr.ctx, b))
                s2 = st.assume(good, iset(1))
            else:
                fr.events.append(Ev('assert', kind, (good,), (), t[-1], fr.fn['full'], fr.ctx, b))
                s2 = st
            if s2 is not None:
                outs.setdefault(t[4], []).append(s2)
        elif k == 'call':
            self.exec_call(fr, b, st, t, outs)
        elif k == 'yield':
            st.store[(fr.ctx, t[3][0])] = mk('zst', 'resume')
            outs.setdefault(t[2], []).append(st)
        elif k in ('unreachable', 'resume'):
            pass

    def _neg(self, val, ty):
        T_ = self.P.types[ty]
        if T_['k'] == 'int' and T_['s'] and val >= (1 << (T_['b'] - 1)):
            return val - (1 << T_['b'])
        return val

    def exec_call(self, fr, b, st, t, outs):
        callee, ops, argtys, dest, destty, target, span = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        fr.span = span
        args = [self.operand(st, fr, o) for o in ops]
        res = self.call(fr, b, st, callee, args, argtys, destty, span)
        if target is None:
            return
        for s, v in res:
            s = s if s is not st else s
            self.wr(s, fr, dest, v)
            outs.setdefault(target, []).append(s)

    def call(self, fr, b, st, callee, args, argtys, destty, span, tag=None):
        if 'ctor' in callee or callee.get('ctor') is not None:
            c = callee['ctor']
            return [(st, self.ctor(c, args, destty))]
        if 'i' in callee:
            f = self.P.fns[callee['i']]
            return self.call_fn(fr, b, st, f, args, argtys, destty, span, tag, callee.get('d'))
        if 'op' in callee:
            fv = self.val(st, self.operand(st, fr, callee['op']))
            return self.call_value(fr, b, st, fv, args, destty, span, tag)
        nm = callee.get('u') or str(callee)
        self.unmod(fr, nm, span)
        return self.havoc_call(fr, b, st, nm, args, argtys, destty)

    def ctor(self, c, args, destty):
        T_ = self.P.types[destty] if destty is not None else None
        if isinstance(c, list):
            ty, var = c[0], c[1]
            return mk('agg', self.P.types[ty]['p'], var, tuple(args))
        if T_ is not None and T_['k'] in ('struct', 'enum'):
            return mk('agg', T_['p'], c if isinstance(c, int) else 0, tuple(args))
        return mk('unk', 'ctor')

    def std_eq(self, f):
        """An equality of the standard library on standard types (not one written in the code under analysis)."""
        T_ = self.P.types[f['self']] if f.get('self') is not None else None
        while T_ is not None and T_['k'] == 'ref':
            t = T_.get('t', T_.get('e'))
            T_ = self.P.types[t] if t is not None else None
        return T_ is not None and (T_['k'] not in ('struct', 'enum') or T_.get('p', '').startswith('std::'))

    def call_fn(self, fr, b, st, f, args, argtys, destty, span, tag=None, d=None):
        cut = self.find_cut(f)
        site = mk('site', fr.ctx, b, tag if tag is not None else 0)
        if cut is not None:
            r = cut(self, Cx(self, fr, b, site, span, f, argtys, destty), st, args)
            if r is not None:
                return r
        for start, tr, h in self.N.PRE:
            if f.get('trait') == tr and f['path'].startswith(start):
                r = h(self, Cx(self, fr, b, site, span, f, argtys, destty), st, args)
                if r is not None:
                    return r
        if self.cuts and args and '{closure#' in f['path']:
            v = self.val(st, args[0])
            if v.op == 'agg' and v.a[0] == 'std::pin::Pin':
                v = self.val(st, v.a[2][0])
            if v.op == 'agg' and v.a[0] == 'bfut':
                return [(s, mk('agg', 'std::task::Poll', 0, (x,))) for s, x in self.cuts['*poll'](self, Cx(self, fr, b, site, span, f, argtys, destty), st, v)]
        if 'body' in f and (f.get('derived', True) or self.std_eq(f)) and f.get('trait') in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne') and len(args) == 2:
            T_ = self.P.types[f['self']] if f.get('self') is not None else None
            if T_ is not None and T_['k'] in ('struct', 'enum', 'ref') and self.struct_eq:
                return self.N.peq(self, Cx(self, fr, b, site, span, f, argtys, destty), st, args) if f['trait'].endswith('eq') \
                    else self.N.pne(self, Cx(self, fr, b, site, span, f, argtys, destty), st, args)
        if 'body' not in f:
            if f.get('ctor') is not None:
                return [(st, self.ctor(f['ctor'], args, destty))]
            r = self.N.native(self, Cx(self, fr, b, site, span, f, argtys, destty), st, args)
            if r is not None:
                return r
            self.unmod(fr, f['full'], span)
            return self.havoc_call(fr, b, st, f['full'], args, argtys, destty)
        return self.inline(fr, b, st, f, args, destty, span, tag, argtys)

    def inline(self, fr, b, st, f, args, destty, span, tag=None, argtys=None):
        body = self.P.body(f)
        if len(args) == 2 and body.argc != 2 and args[1].op == 'agg' and args[1].a[0] == 'tuple' and body.argc == 1 + len(args[1].a[2]):
            args = [args[0]] + list(args[1].a[2])
        elif len(args) == 2 and body.argc == 2 and '{closure' in f['path'] and args[1].op == 'agg' and args[1].a[0] == 'tuple' \
                and len(args[1].a[2]) == 1 and (self.P.types[body.locals[2]]['k'] != 'tuple' or len(self.P.types[body.locals[2]]['f']) != 1):
            args = [args[0], args[1].a[2][0]]
        if body.b.get('spread') is not None and len(args) == 2 and body.argc != len(args) and args[1].op == 'agg':
            args = [args[0]] + list(args[1].a[2])
        if len(args) != body.argc:
            self.unmod(fr, 'argc ' + f['full'], span)
            return self.havoc_call(fr, b, st, f['full'], args, argtys or [], destty)
        # recursion
        c = fr.ctx
        depth = 0
        n = 0
        while c.op == 'ctx' and c.a[0] != 'root':
            if c.a[2] == f['id']:
                n += 1
            c = c.a[0]
            depth += 1
        if c.op == 'ctx' and c.a[1] == f['id']:
            n += 1
        if n >= 1 or depth > 40:
            fr.events.append(Ev('rec', f['full'], tuple(args), st.facts, span, fr.fn['full'], fr.ctx, b))
            return self.havoc_call(fr, b, st, f['full'], args, argtys or [], destty, op='rec')
        key = tuple((a.id, self.val(st, a).id if a.op == 'ref' else None) for a in args)
        ctx = mk('ctx', fr.ctx, mk('cs', b, tag if tag is not None else 0), f['id'], key)
        rets, evs = self.run(f, args, st, ctx, fr.depth + 1)
        fr.events.extend(evs)
        if body.argc and self.P.types[self.P.deref_ty(body.locals[1])]['k'] == 'coroutine':
            # a body polled: every suspension is taken to end, so the poll that counts is the last one
            rets = [(s, mk('agg', 'std::task::Poll', 0, (v,))) for s, v in rets]
        return rets

    def call_value(self, fr, b, st, fv, args, destty, span, tag=None):
        """Call a closure / function value with a list of arguments (natively or from MIR)."""
        if fv.op == 'ref':
            fvv = self.val(st, fv)
        else:
            fvv = fv
        if fvv.op == 'agg' and isinstance(fvv.a[0], tuple) and fvv.a[0][0] == 'closure':
            inst = fvv.a[0][1]
            if inst is None:
                self.unmod(fr, 'closure', span)
                return self.havoc_call(fr, b, st, 'closure', args, [], destty)
            f = self.P.fns[inst]
            body = self.P.body(f)
            env = fv
            # by-ref environment: give it a location so that captured state can be updated
            ety = self.P.types[body.locals[1]]
            if ety['k'] == 'ref' and ety['mut'] and fv.op != 'ref':
                key = (mk('env', fr.ctx, b, str(tag)), 'env')
                self.ltypes[key[0]] = {'env': ety['e']}
                st.store[key] = fv
                st._k = None
                env = mk('ref', key, ())
            if body.argc == 1 + len(args):
                return self.inline(fr, b, st, f, [env] + list(args), body.locals[0], span, tag)
            return self.inline(fr, b, st, f, [env, tup(*args)], body.locals[0], span, tag)
        if fvv.op == 'fnval':
            T_ = self.P.types[fvv.a[0]]
            if T_.get('ctor') is not None:
                c = T_['ctor']
                if isinstance(c, list):
                    return [(st, mk('agg', self.P.types[c[0]]['p'], c[1], tuple(args)))]
            i = T_.get('i')
            if i is not None:
                return self.call_fn(fr, b, st, self.P.fns[i], list(args), [], destty, span, tag)
        if fvv.op == 'fninst':
            return self.call_fn(fr, b, st, self.P.fns[fvv.a[0]], list(args), [], destty, span, tag)
        self.unmod(fr, 'indirect call', span)
        return self.havoc_call(fr, b, st, 'indirect', args, [], destty)

    def unmod(self, fr, name, span):
        self.unmodelled.setdefault(name, set()).add('%s (%s)' % (span, fr.fn['full']))

    def havoc_call(self, fr, b, st, name, args, argtys, destty, op='unk'):
        st = st.copy()
        vals = []
        for i, a in enumerate(args):
            if a.op == 'ref':
                v = self.val(st, a)
                vals.append(v)
            else:
                vals.append(a)
        if op == 'unk':
            fr.events.append(Ev('unmodelled', name, tuple(vals), st.facts, fr.span if hasattr(fr, 'span') else '', fr.fn['full'], fr.ctx, b))
        site = mk('site', fr.ctx, b, name)
        for i, a in enumerate(args):
            if a.op == 'ref':
                n = mk(op, 'havoc:' + name, site, i, self.val(st, a))
                self.store_ref(st, a, [], n)
        r = self.opaque(destty, op, name, site, tuple(vals)) if destty is not None else mk(op, name, site, tuple(vals))
        if destty is not None and self.P.types[destty]['k'] == 'tuple' and not self.P.types[destty]['f']:
            r = UNIT
        return [(st, r)]

    def find_cut(self, f):
        if not self.cuts or not f.get('local') and not ('*extern' in self.cuts and f['path'].lstrip('<').startswith(self.cuts['*extern'])):
            return None
        k = f.get('sk')
        if k is None:
            k = f['sk'] = shortkey(('x::' if f['path'].startswith('<') else '') + f['path'])
        c = self.cuts.get(k)
        if c is None and '::' in k and ' as ' not in k:
            c = self.cuts.get(k.rsplit('::', 1)[1]) if k.split('::')[0][:1].islower() else None
        if c is None and not f.get('local') and 'body' not in f and f.get('ctor') is None:
            c = self.cuts.get('*lib')
        return c


def strip_paths(s):
    return re.sub(r'(?:\w+::)+(?=\w)', '', s)


def shortkey(path):
    """'dnssec_prover::<rr::A as rr::StaticRecord>::json' -> 'A as StaticRecord::json'; 'c::ser::write_name' -> 'write_name'."""
    p = path.split('::', 1)[1] if '::' in path else path
    m = re.match(r'^(.*::)?<(.*) as (.*)>::(\w+)$', p)
    if m and '{' not in p:
        ty = re.sub(r"<'\w+>", '', strip_paths(m.group(2)))
        return '%s as %s::%s' % (ty, strip_paths(m.group(3)), m.group(4))
    p = re.sub(r"::<[^>]*>", '', p)
    parts = p.split('::')
    if len(parts) >= 2 and parts[-2][:1].isupper():
        return '::'.join(parts[-2:])
    if len(parts) >= 2 and parts[-2] == 'base32':
        return 'base32::' + parts[-1]
    return parts[-1]


_BOOLS = {'eq', 'eq0', 'le0', 'in', 'not', 'band', 'bor', 'exists', 'strp', 'lexlt'}


class Cx:
    """Call-site context handed to native models and cuts."""
    __slots__ = ('I', 'fr', 'b', 'site', 'span', 'f', 'argtys', 'destty', 'n')

    def __init__(self, I, fr, b, site, span, f, argtys, destty):
        self.I, self.fr, self.b, self.site, self.span, self.f, self.argtys, self.destty = I, fr, b, site, span, f, argtys, destty
        self.n = 0

    def ev(self, kind, name, args, st, data=None):
        self.fr.events.append(Ev(kind, name, tuple(args), st.facts, self.span, self.fr.fn['full'], self.fr.ctx, self.b, data))

    def closure(self, st, fv, args, tag):
        return self.I.call_value(self.fr, self.b, st, fv, args, None, self.span, tag='%s/%s' % (self.site.a[2], tag))
