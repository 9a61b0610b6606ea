"""A JSON recogniser over derived text.

A text is a concatenation of constants, renderings of values and carried prefixes.  The recogniser's configuration
(open brackets, position in the grammar, the string being read and the tags already read at the outermost level) is
carried over every piece, over both arms of a conditional piece, and around loops until the set of configurations at
the loop head no longer grows.
"""
from collections import namedtuple
from points import *

Cfg = namedtuple('Cfg', 'stack mode key acc label seen arr')
START = Cfg((), 'V', False, None, None, (), None)
WS = b' \t\r\n'
LIT = {b't': b'rue', b'f': b'alse', b'n': b'ull'}
CTRL = set(range(32)) | {34, 92}
TYPED = ('type', 'name', 'valid_from', 'expires', 'max_cache_ttl', 'verified_rrs', 'error')


class Bad(Exception):
    pass


class Open(Exception):
    pass


def trim(acc):
    return acc if acc is None or sum(len(x) if isinstance(x, bytes) else 20 for x in acc) < 300 else None


def push(acc, x):
    if acc is None:
        return None
    if isinstance(x, bytes) and acc and isinstance(acc[-1], bytes):
        return trim(acc[:-1] + (acc[-1] + x,))
    return trim(acc + (x,))


def value_done(c, acc):
    """A value ended; remember it if it is a tag of the outermost object."""
    seen = c.seen
    if len(c.stack) == 1 and c.stack[0] == 'o' and c.label in TYPED:
        seen = tuple(sorted([x for x in seen if x[0] != c.label] + [(c.label, acc)], key=lambda x: x[0]))
    return c._replace(mode='A', acc=None, key=False, label=None, seen=seen, arr=c.arr if len(c.stack) > 1 else None)


def step(c, b):
    ch = bytes([b])
    m = c.mode
    if m == 'S':
        if ch == b'"':
            if c.key:
                k = c.acc[0].decode('utf8', 'replace') if c.acc and len(c.acc) == 1 and isinstance(c.acc[0], bytes) else None
                return c._replace(mode=':', acc=None, key=False, label=k if k in TYPED else '')
            return value_done(c, c.acc)
        if ch == b'\\':
            return c._replace(mode='E')
        if b < 32:
            raise Bad('control byte %d in a string' % b)
        return c._replace(acc=push(c.acc, ch))
    if m == 'E':
        if ch in b'"\\/bfnrt':
            return c._replace(mode='S', acc=push(c.acc, b'\\' + ch))
        if ch == b'u':
            return c._replace(mode='U4')
        raise Bad('escape \\%s in a string' % ch.decode('latin1'))
    if m[0] == 'U':
        if ch not in b'0123456789abcdefABCDEF':
            raise Bad('\\u followed by %r' % ch)
        return c._replace(mode='S' if m == 'U1' else 'U%d' % (int(m[1]) - 1), acc=push(c.acc, b'?'))
    if m[0] == 'L':
        if ch != m[1:2].encode():
            raise Bad('%r in a literal' % ch)
        return c._replace(mode=m[0] + m[2:]) if len(m) > 2 else value_done(c, None)
    if m[0] == 'N':
        n = number(m, ch)
        if n is not None:
            return c._replace(mode=n, acc=push(c.acc, ch))
        if m in ('N-', 'N.', 'Ne', 'Ns'):
            raise Bad('%r in a number' % ch)
        c = value_done(c, c.acc)
        m = 'A'
    if ch in WS:
        return c
    if m in ('V', 'V]'):
        if ch == b'"':
            return c._replace(mode='S', acc=())
        if ch == b'{':
            return c._replace(stack=c.stack + ('o',), mode='K}')
        if ch == b'[':
            if c.stack == ('o',):
                c = c._replace(arr=c.label, label=None, seen=c.seen if c.label not in TYPED else tuple(sorted([x for x in c.seen if x[0] != c.label] + [(c.label, '[')], key=lambda x: x[0])))
            return c._replace(stack=c.stack + ('a',), mode='V]')
        if ch == b']' and m == 'V]':
            return value_done(c._replace(stack=c.stack[:-1]), None)
        if ch in b'-0123456789':
            return c._replace(mode='N-' if ch == b'-' else 'N0' if ch == b'0' else 'N1', acc=push((), ch) if c.stack == ('o',) and c.label in TYPED else None)
        if ch in LIT:
            return c._replace(mode='L' + LIT[ch].decode())
        raise Bad('%r where a value is expected' % ch.decode('latin1'))
    if m in ('K', 'K}'):
        if ch == b'"':
            return c._replace(mode='S', key=True, acc=())
        if ch == b'}' and m == 'K}':
            return value_done(c._replace(stack=c.stack[:-1]), None)
        raise Bad('%r where a member is expected' % ch.decode('latin1'))
    if m == ':':
        if ch == b':':
            return c._replace(mode='V')
        raise Bad('%r where ":" is expected' % ch.decode('latin1'))
    if m == 'A':
        if not c.stack:
            raise Bad('%r after the end' % ch.decode('latin1'))
        if ch == b',':
            return c._replace(mode='K' if c.stack[-1] == 'o' else 'V')
        if ch == (b'}' if c.stack[-1] == 'o' else b']'):
            return value_done(c._replace(stack=c.stack[:-1]), None)
        raise Bad('%r after a value' % ch.decode('latin1'))
    raise Open('state')


def number(m, ch):
    d = ch in b'0123456789'
    if m == 'N-':
        return ('N0' if ch == b'0' else 'N1') if d else None
    if m == 'N0':
        return {b'.': 'N.', b'e': 'Ne', b'E': 'Ne'}.get(ch, 'Nbad' if d else None) if True else None
    if m in ('N1', 'Nd'):
        return 'N1' if d else {b'.': 'N.', b'e': 'Ne', b'E': 'Ne'}.get(ch)
    if m == 'N.':
        return 'Nf' if d else None
    if m == 'Nf':
        return 'Nf' if d else {b'e': 'Ne', b'E': 'Ne'}.get(ch)
    if m == 'Ne':
        return 'Nx' if d else ('Ns' if ch in b'+-' else None)
    if m in ('Ns', 'Nx'):
        return 'Nx' if d else None
    if m == 'Nbad':
        raise Bad('a number with a leading 0')
    return None


def run_bytes(c, s):
    for b in s:
        if b >= 128 and c.mode != 'S':
            raise Bad('byte %d outside a string' % b)
        c = step(c, b)
    return c


class Text:
    """The recogniser for the texts of one analysed function."""

    def __init__(self, r):
        self.r, self.P = r, r.P
        self.heads = {}
        self.active = set()

    # ------------------------------------------------------------ types of what is rendered
    def type_of(self, t):
        """Type record of a field path from a parameter, else None."""
        if t.op == 'param':
            for i in range(self.r.f['body']['argc']):
                if self.r.arg(i) is t or self.r.p(i) is t:
                    return self.P.types[self.P.deref_ty(self.r.f['body']['locals'][i + 1])]
            return None
        if t.op == 'idx':
            x = self.type_of(t.a[0])
            if x and x.get('a'):
                return self.P.types[x['a'][0]]
            return self.P.types[x['e']] if x and isinstance(x.get('e'), int) else None
        if t.op != 'fld':
            return None
        b = self.type_of(t.a[0])
        if b is None or b.get('p') not in self.P.adt:
            return None
        k = t.a[1]
        var = None
        if '.' in k:
            var, k = k.split('.', 1)
        vs = self.P.adt[b['p']]['v']
        v = next((x for x in vs if x['n'] == var), None) if var else (vs[0] if len(vs) == 1 else None)
        if v is None:
            return None
        f = next((x for x in v['f'] if x[0] == k), None)
        return self.P.types[f[1]] if f else None

    def is_name_text(self, t):
        if t.op == 'lower':
            t = t.a[0]
        if t.op in ('rdname', 'namelower'):
            return True
        if t.op != 'fld' or t.a[1] != '0':
            return False
        if t.a[0].op in ('rrname', 'rdname'):
            return True
        b = self.type_of(t.a[0])
        return b is not None and b.get('p', '').endswith('rr::Name')

    # ------------------------------------------------------------ pieces
    def text(self, cs, t, facts, env=None):
        if env is None:
            env = self.known(facts)
        for q in parts(t):
            cs = self.piece(cs, q, facts, env)
        return cs

    def known(self, facts):
        """Ranges every way to get here agrees on."""
        env = {}
        facts = list(facts)
        for t in facts[0].d if facts else ():
            z = F.cset(facts[0], t)
            for c in facts[1:]:
                z = iunion(z, F.cset(c, t))
            if t.op not in ('exists', 'done', 'le0', 'eq0', 'strp') and z != rng(t):
                env[t] = z
        return env

    def joined(self, cs, q, facts, env):
        """Texts of a list put together with a separator."""
        S, sep = q.a[:2]
        if S.op != 'comp':
            raise Open('%s joined' % show(S)[:80])
        out = set(cs)

        def item(z):
            got = set()
            for d, v in S.a[1]:
                got |= self.text(z, v, facts, dict(env))
            return got
        got = item(cs)
        for _ in range(60):
            n = len(out)
            out |= got
            z = got
            for x in parts(sep):
                z = self.piece(z, x, facts, env)
            got = item(z)
            if got <= out:
                return out
        raise Open('a joined list does not settle')

    def piece(self, cs, q, facts, env):
        out = set()
        if q in self.r.I.phis:
            for c in cs:
                if c != START:
                    raise Open('a carried text in the middle')
            return self.phi(q)
        if q.op == 'ite':
            v = self.cond(q.a[0], env)
            try:
                for k, b in ((1, q.a[1]), (0, q.a[2])):
                    if v is None or v == k:
                        out |= self.text(cs, b, facts, self.assume(env, q.a[0], k))
            except Bad as e:
                if v is None and self.carried(q.a[0]):
                    raise Open('%s, under a condition on what a loop carries' % e)
                raise
            return out
        if q.op == 'case':
            for s, b in q.a[1]:
                e2 = dict(env)
                if isinstance(s, ISet):
                    z = iinter(self.range(q.a[0], env), s)
                    if z.empty():
                        continue
                    e2[q.a[0]] = z
                out |= self.text(cs, b, facts, e2)
            return out
        if q.op == 'joined':
            return self.joined(cs, q, facts, env)
        for c in cs:
            out.add(self.one(c, q, facts, env))
        return out

    def range(self, t, env):
        if t in env:
            return env[t]
        if t.op == 'idx' and t.a[0].op == 'bytes':
            z = self.range(t.a[1], env)
            if z.lo() is not None and z.hi() is not None and z.hi() < len(t.a[0].a[0]):
                return iset(*t.a[0].a[0][z.lo():z.hi() + 1])
        return rng(t)

    def carried(self, t):
        return any(y in self.r.I.phis for y in subterms(t))

    def cond(self, t, env):
        if t.op == 'not':
            v = self.cond(t.a[0], env)
            return None if v is None else 1 - v
        if t.op == 'in':
            z = self.range(t.a[0], env)
            if not z.empty() and iinter(z, t.a[1]) == z:
                return 1
            if iinter(z, t.a[1]).empty():
                return 0
        if t in env and env[t].single() in (0, 1):
            return env[t].single()
        return None

    def assume(self, env, t, k):
        env = dict(env)
        if t.op == 'not':
            return self.assume(env, t.a[0], 1 - k)
        if t.op == 'in':
            z = self.range(t.a[0], env)
            env[t.a[0]] = iinter(z, t.a[1]) if k else icompl(t.a[1], z)
        else:
            env[t] = iset(k)
        return env

    def one(self, c, q, facts, env):
        o = q.op
        if o == 'bytes':
            return run_bytes(c, q.a[0])
        ins = c.mode == 'S'
        val = c.mode in ('V', 'V]')
        where = 'in a string' if ins else 'where a value is expected' if val else 'after %s' % {'A': 'a value', 'K': '","', 'K}': '"{"', ':': 'a member name'}.get(c.mode, 'a number' if c.mode[0] == 'N' else '"\\"')
        if o == 'dec':
            if ins:
                return c._replace(acc=push(c.acc, q))
            if val:
                return c._replace(mode='Nd', acc=(q,) if c.stack == ('o',) and c.label in TYPED else None)
            raise Bad('a number %s' % where)
        if o == 'hex':
            if ins:
                return c._replace(acc=push(c.acc, q))
            raise Bad('hexadecimal digits %s' % where)
        if o == 'fmtdebug':
            return self.debug(c, q, where, facts, env)
        if o == 'fmtpad':
            if val:
                raise Bad('a padded or otherwise formatted number (%s) %s' % (q.a[1], where)) if q.a[0] == 'debug' or q.a[1][0] in 'iu' else Bad('text %s' % where)
            if ins and q.a[1][:1] in 'iu':
                return c._replace(acc=None)
            raise Open('formatted %s' % q.a[1])
        if o == 'rrjson' or o == 'unk' and q.a[0].endswith(('::json', 'Record>::json')):
            if val:
                return value_done(c, None)
            raise Bad('a rendered record %s' % where)
        if o == 'disp' and 'Cow' in q.a[0] and self.type_of(q.a[1]) is not None and type(self.clean(q.a[1], facts, CTRL)) is int:
            raise Bad('text that may contain character %d %s as it is' % (self.clean(q.a[1], facts, CTRL), where))
        if o in ('disp', 'unk', 'opq', 'rec'):
            raise Open('%s %s' % (show(q)[:80], where))
        if o in ('unit', 'be', 'utf8') or o == 'arr' and len(q.a[0]) == 1:
            x = q.a[0][0] if o == 'arr' else q.a[-1]
            z = self.range(x, env)
            if ins:
                worst = [k for k in sorted(CTRL) if z.has(k) and all(F.cset(d, x).has(k) for d in facts)]
                if worst and x.op == 'idx' and x.a[1].op == 'elem' and full(x.a[1], x.a[0]):
                    src = x.a[0].a[0] if x.a[0].op == 'chars' else x.a[0]
                    v = self.clean(src, facts, set(worst))
                    if v is None:
                        raise Open('a character of %s of which something is known' % show(src)[:60])
                    worst = [] if v is True else [v]
                if worst and x.op not in ('idx', 'elem', 'fld', 'param'):
                    raise Open('the character %s' % show(x)[:60])
                if worst:
                    raise Bad('character %d as it is in a string' % worst[0])
                return c._replace(acc=None)
            raise Open('a single byte %s' % where)
        if self.is_name_text(q):
            if ins:
                return c._replace(acc=push(c.acc, q))
            raise Bad('a name %s' % where)
        T_ = self.type_of(q)
        if T_ is not None or q.op in ('slice', 'fld'):
            if not ins:
                raise Bad('raw text %s' % where)
            v = self.clean(q, facts, CTRL)
            if v is True:
                return c._replace(acc=push(c.acc, q))
            if v is None:
                raise Open('text %s of which something is known' % show(q)[:60])
            raise Bad('text that may contain character %d in a string as it is' % v)
        raise Open('%s %s' % (show(q)[:100], where))

    def clean(self, q, facts, need):
        """True: none of the characters occurs; a character that may; None: not known."""
        vague = False
        for c in facts:
            left = set(need)
            for seq in (mk('chars', q), q):
                for z in one_atom(c, lambda t, a: a.op == 'idx' and a.a[0] is seq and a.a[1].op == 'elem' and full(a.a[1], seq)):
                    left = {k for k in left if not z.has(k)}
            if left:
                odd = [t for t in c.d if t.op not in ('strp', 'done', 'le0', 'len') and not (t.op == 'exists' and c.d[t].single() == 1) and not (t.op == 'exists' and all(len(a) == 1 for a in t.a[1]))
                       and not t.op == 'idx' and any(y is q for y in subterms(t))]
                loops = [t for t in c.d if t.op == 'done' and any(y is q for y in subterms(t))]
                if odd or loops:
                    vague = True
                    continue
                return min(left)
        return None if vague else True

    def debug(self, c, q, where, facts, env):
        ins, val = c.mode == 'S', c.mode in ('V', 'V]')
        n = q.a[0]
        el = n.strip('&').replace('std::vec::Vec<', '[').replace('alloc::vec::Vec<', '[')
        if el.startswith('['):
            inner = el[1:].split(';')[0].rstrip(']>').strip()
            if inner in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
                if val:
                    return value_done(c, None)
                if ins:
                    return c._replace(acc=None)
                raise Bad('a list %s' % where)
            raise Open('debug rendering of %s' % n)
        if el in ('str', 'std::string::String', 'alloc::string::String'):
            if ins:
                raise Bad('a quoted text inside a string')
            if val:
                if self.is_name_text(q.a[1]):
                    return value_done(c, (q.a[1],) if c.label in TYPED else None)
                v = self.clean(q.a[1], facts, set(range(0, 9)) | {11, 12} | set(range(14, 32)) | {127, 128, 159, 0x200b, 0x301})
                if v is True:
                    return value_done(c, None)
                if v is None:
                    raise Open('debug rendering of text')
                raise Bad('text rendered with Rust\'s escapes (character %d becomes \\u{%x})' % (v, v))
            raise Bad('a text %s' % where)
        a = self.P.adt.get(n) or next((x for p, x in self.P.adt.items() if p.endswith('::' + n.split('::')[-1]) and x['k'] == 'enum'), None)
        if a is not None and a['k'] == 'enum' and not any(v['f'] for v in a['v']):
            if ins:
                return c._replace(acc=None)
            raise Bad('a word %s' % where)
        raise Open('debug rendering of %s' % n)

    # ------------------------------------------------------------ loops
    def phi(self, p):
        if p in self.active:
            return set(self.heads[p][0])
        self.active.add(p)
        try:
            return self.phi1(p)
        finally:
            self.active.discard(p)

    def phi1(self, p):
        inc = self.r.I.phis[p]
        self.heads.setdefault(p, [set(), set()])          # all configurations, those after at least one pass
        grow = []
        for v, fs in inc:
            ps = parts(v)
            if v is p:
                continue
            if ps[:1] == [p]:
                grow.append((ps[1:], fs))
            elif any(y is p for y in ps):
                raise Open('a carried text in the middle')
            else:
                # other loops' texts may carry this one in turn; their outcome is iterated below
                grow.append((None, (v, fs)))
        first = set()
        for _ in range(60):
            before = len(self.heads[p][0])
            for ps, fs in grow:
                if ps is None:
                    v, f = fs
                    got = self.text({START}, v, f, {**self.known(f), **self.env_of(p, f, None)})
                    first |= got
                    self.heads[p][0] |= got
                else:
                    for cs, fst in ((set(first), True), (set(self.heads[p][1]), False)):
                        if not cs:
                            continue
                        z = cs
                        env = self.env_of(p, fs, fst)
                        if env is None:
                            continue
                        env = self.both(self.known(fs), env)
                        if env is None:
                            continue
                        try:
                            for q in ps:
                                z = self.piece(z, q, fs, env)
                        except Bad as e:
                            if any(self.carried(t) for c in fs for t in c.d):
                                raise Open('%s, under a condition on what a loop carries' % e)
                            raise
                        self.heads[p][0] |= z
                        self.heads[p][1] |= z
            if len(self.heads[p][0]) > 400:
                raise Open('too many configurations')
            if len(self.heads[p][0]) == before and _ > 2:
                return set(self.heads[p][0])
        raise Open('does not settle')

    def both(self, a, b):
        """Both of two sets of ranges; None when they exclude each other."""
        out = dict(a)
        for t, z in b.items():
            out[t] = iinter(a[t], z) if t in a else z
            if out[t].empty():
                return None
        return out

    def env_of(self, p, facts, first):
        """What is known of the index of the loop's own iteration on its first and on later passes."""
        env = {}
        if first is None:
            return env
        es = {y for v, _ in self.r.I.phis[p] for y in subterms(v) if y.op == 'elem'} | {y for c in facts for t in c.d for y in subterms(t) if y.op == 'elem'}
        for e in es:
            if e.a[1].op != 'site' or e.a[1].a[0] is not p.a[0]:
                continue
            hs = [(len(b), h) for (cx, h), (b, _) in self.r.I.loops.items() if cx is p.a[0] and e.a[1].a[1] in b]
            if not hs or min(hs)[1] != p.a[1]:
                continue
            lo = rng(e).lo()
            if lo == 0:
                env[e] = iset(0) if first else iinter(rng(e), ISet(((1, None),)))
        return env


def judge_text(rep, r, tag, what, w, expect=None):
    """Every text the function returns is one JSON value; expect(seen) judges the tags."""
    for st, v in r.rets:
        vs = [(v, st.facts)]
        if is_ok(v):
            vs = [(pay(v), st.facts)]
        elif is_err(v):
            continue
        for t, fs in vs:
            try:
                cs = Text(r).text({START}, t, fs)
            except Bad as e:
                rep.bad(tag, '%s: not JSON: %s' % (what, e), w)
                continue
            except Open as e:
                rep.unknown(tag, '%s: %s' % (what, e), w)
                continue
            for c in cs:
                if c.stack or not (c.mode == 'A' or c.mode in ('N0', 'N1', 'Nd', 'Nf', 'Nx')):
                    rep.bad(tag, '%s: not JSON: ends %s' % (what, 'inside a string' if c.mode in 'SEU1U2U3U4' else 'with %d brackets open' % len(c.stack) if c.stack else 'too early'), w)
                else:
                    rep.good(tag, '%s: JSON' % what, w)
                    if expect:
                        expect(dict(c.seen), what, w)
