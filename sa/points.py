"""Evaluation of derived facts at chosen points, quantified facts over the elements of strings included.

A function's summary (conditions of a return in terms of its parameters) is evaluated for one assignment of the
parameters: sequences derived from a byte string (characters, parts between separators) are computed, a quantified fact
is expanded over its elements, and the fact that a loop ran to its end is expanded to the conditions of its back edges
for every element.  Anything else that has no closed form leaves the outcome open (None).
"""
from base import *


def strfn(go, x):
    """Text functions the library offers, on text patterns."""
    v = [go(y) for y in x.a[1:]]
    if x.a[0] in ('replace', 'replacen') and len(v) == 3 + (x.a[0] == 'replacen') and isinstance(v[0], bytes) and isinstance(v[2], bytes):
        p = bytes([v[1]]) if isinstance(v[1], int) else v[1]
        if not p:
            raise NoVal('strfn')
        return v[0].replace(p, v[2], *v[3:])
    if len(v) == 1 and x.a[0] in ('trim', 'trim_start', 'trim_end') and isinstance(v[0], bytes):
        u = v[0].decode('latin1') if v[0].isascii() else v[0].decode()
        return {'trim': u.strip, 'trim_start': u.lstrip, 'trim_end': u.rstrip}[x.a[0]]().encode()
    if len(v) != 2 or not all(isinstance(y, (bytes, int)) for y in v) or not isinstance(v[0], bytes):
        raise NoVal('strfn')
    s, p = v[0], bytes([v[1]]) if isinstance(v[1], int) else v[1]
    if not p:
        raise NoVal('strfn')
    if x.a[0] in ('trim_end_matches', 'trim_matches'):
        while s.endswith(p):
            s = s[:-len(p)]
    if x.a[0] in ('trim_start_matches', 'trim_matches'):
        while s.startswith(p):
            s = s[len(p):]
    elif x.a[0] != 'trim_end_matches':
        raise NoVal('strfn')
    return s


class Points:
    def __init__(self, r):
        self.r = r
        self.ops = {'strfn': strfn, 'upper': lambda go, x: go(x.a[0]).upper(), 'lower': lambda go, x: go(x.a[0]).lower(), 'chars': self.chars, 'split': self.split, 'part': self.part, 'over': lambda go, x: go(x.a[0]), 'seqit': lambda go, x: go(x.a[0]),
                    'strp': self.strp, 'charbound': self.charbound, 'nparts': lambda go, x: len(self.split(go, x.a[0])), 'posof': self.posof, 'exists': self.exists, 'done': self.done, 'range': self.range, 'kept': self.kept, 'count': self.count}
        self.env = None

    def reach(self, facts, env):
        """at(), with a fact on some element of a sequence taken to be on its first one (nothing has to hold before)."""
        env = dict(env)
        for c in facts:
            for t in c.d:
                if t.op not in ('exists', 'done', 'count'):
                    env.update({y: 0 for y in subterms(t) if y.op == 'elem' and y not in env})
        return self.at(facts, env)

    def at(self, facts, env):
        old, self.env = self.env, env
        try:
            return facts_at(facts, env, self.ops)
        finally:
            self.env = old

    def value(self, t, env):
        old, self.env = self.env, env
        try:
            return evalt(t, env, self.ops)
        finally:
            self.env = old

    def range(self, go, x):
        return range(go(x.a[0]), go(x.a[1]))

    def charbound(self, go, x):
        try:
            v, i = go(x.a[0]), go(x.a[1])
        except NoVal:
            return 1
        return int(0 <= i <= len(v) and (i == len(v) or v[i] & 0xc0 != 0x80))

    def posof(self, go, x):
        v, y = go(x.a[1]), go(x.a[2])
        y = bytes([y]) if isinstance(y, int) else y
        if x.a[0] not in ('split_once', 'find') or y not in v:
            raise NoVal('posof')
        return v.index(y)

    def chars(self, go, x):
        v = go(x.a[0])
        try:
            return [ord(c) for c in v.decode()]
        except UnicodeDecodeError:
            raise NoVal('chars')

    def split(self, go, x):
        if x.a[0] != 'split' or not isinstance(go(x.a[2]), bytes) or not go(x.a[2]):
            raise NoVal('split')
        return go(x.a[1]).split(go(x.a[2]))

    def part(self, go, x):
        v, i = go(x.a[0]), go(x.a[1])
        if not 0 <= i < len(v):
            raise NoVal('part')
        return v[i]

    def kept(self, go, x):
        n, i = go(x.a[1]), go(x.a[2])
        if x.a[0] == 'skip':
            return int(i >= n)
        if x.a[0] == 'take':
            return int(i < n)
        raise NoVal('kept')

    def strp(self, go, x):
        v = go(x.a[1])
        try:
            if x.a[0] == 'utf8':
                v.decode()
                return 1
        except UnicodeDecodeError:
            return 0
        if x.a[0] == 'contains':
            y = go(x.a[2])
            if isinstance(y, (int, bytes)):
                return int((bytes([y]) if isinstance(y, int) else y) in v)
        raise NoVal('strp')

    def items(self, src, env):
        """The element values an index over src takes: indices for sequences, the numbers themselves for ranges."""
        v = evalt(src, env, self.ops)
        return list(v) if isinstance(v, range) else list(range(len(v)))

    def exists(self, go, x):
        env = self.env
        res = 0
        for alt in x.a[1]:
            es = {y for t, s in alt for y in subterms(t) if y.op == 'elem' and y not in env}
            if len(es) != 1:
                raise NoVal('exists')
            e = es.pop()
            for k in self.items(e.a[0], env):
                v = self.at([F.Conj(dict(alt))], dict(env, **{}) | {e: k})
                if v is True:
                    return 1
                if v is None:
                    res = None
        if res is None:
            raise NoVal('exists')
        return res

    def count(self, go, x):
        if x.a[0].op != 'over':
            raise NoVal('count')
        env, n = self.env, 0
        src = go(x.a[0].a[0])
        alts = [(alt, {y for t, s in alt for y in subterms(t) if y.op == 'elem' and y not in env}) for alt in x.a[1]]
        if any(len(es) > 1 for _, es in alts):
            raise NoVal('count')
        for k in range(len(src)):
            vs = [self.at([F.Conj(dict(alt))], dict(env) | {e: k for e in es}) for alt, es in alts]
            if True in vs:
                n += 1
            elif None in vs:
                raise NoVal('count')
        return n

    def done(self, go, x):
        if any(o not in ('take', 'skip') for o in x.a[1]) or len(x.a[1]) > 1:
            raise NoVal('done')
        env, site = self.env, x.a[2]
        for (cx, h), (blocks, states) in self.r.I.loops.items():
            if cx is site.a[0] and site.a[1] in blocks:
                break
        else:
            raise NoVal('done')
        inner = [(b2) for (c2, h2), (b2, _) in self.r.I.loops.items() if c2 is cx and h2 != h and site.a[1] in b2]
        if any(len(b) < len(blocks) for b in inner):
            raise NoVal('nested loop')
        es = set()
        facts = []
        for s in states:
            for c in s.facts:
                facts.append(c)
                es |= {y for t in c.d for y in subterms(t) if y.op == 'elem' and y not in env}
        src = x.a[0].a[0] if x.a[0].op in ('seqit', 'over') else None
        es = {e for e in es if e.a[0] is x.a[0] or (src is not None and e.a[0].op == 'range' and e.a[0].a[0] is num(0) and e.a[0].a[1] is seqlen(src))}
        kept = {t for c in facts for t in c.d if t.op == 'kept' and t.a[2] in es}
        if x.a[1] and not kept:
            raise NoVal('done')
        # conditions on other elements (an earlier quantified fact that was not taken) leave the outcome open
        for k in self.items(x.a[0], env):
            e2 = dict(env)
            for e in es:
                e2[e] = k
            if kept and not any(evalt(t, e2, self.ops) for t in kept):
                continue
            v = self.at(facts, e2)
            if v is False:
                return 0
            if v is None:
                raise NoVal('loop')
        return 1


def one_atom(c, want):
    """Sets of an element excluded by the quantified facts of c, for the elements want() accepts."""
    for t, q in c.d.items():
        if t.op == 'exists' and q.single() == 0:
            for alt in t.a[1]:
                for a, z in alt if len(alt) == 1 else ():
                    if want(t, a):
                        yield z


def full(e, seq):
    D = e.a[0]
    return D.op == 'range' and D.a[0] is num(0) and D.a[1] is seqlen(seq) or D.op in ('over', 'seqit') and D.a[0] is seq


LEAF = ('fld', 'wname', 'hash', 'param', 'phi', 'elem', 'havoc', 'out', 'input', 'part')
INTS = ('be', 'lin', 'mul', 'and', 'or', 'xor', 'wrap', 'swrap', 'mod', 'div', 'shl', 'shr', 'min', 'max', 'le0', 'eq0', 'in', 'not', 'discr')


def agree(got, want):
    """Whether a text of bytes is the concatenation of others, at sample values of what they are made of: True, False,
    or None where they cannot be evaluated."""
    a = got if isinstance(got, list) else [got]
    kinds = {}

    def walk(t, up):
        if t.op in LEAF or t.op == 'idx' and not any(y.op in ('ext', 'be', 'slice') for y in subterms(t.a[0])):
            k = 'i' if up in INTS or t.op in ('elem', 'idx') else 'b'
            kinds.setdefault(t, set()).add(k)
            return
        for y in t.a:
            for z in (y if isinstance(y, (tuple, frozenset)) else (y,)):
                for w in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(w, type(t)):
                        walk(w, t.op)
    for t in a + want:
        walk(t, '')
    if any(len(k) > 1 for k in kinds.values()):
        return None
    leaf = sorted(kinds, key=lambda t: show(t))
    lens = [0, 1, 2, 5, 33, 64, 300, 1100, 5000] + [k for z in a for y in subterms(z) if y.op == 'int' and isinstance(y.a[0], int) and 0 < y.a[0] < 1 << 17 for k in (y.a[0], y.a[0] + 1)]
    res = True
    for n in range(3 * len(lens)):
        env = {}
        for i, t in enumerate(leaf):
            if kinds[t] == {'i'}:
                env[t] = (n * 53 + i * 29 + 1) & 255 if n % 3 else n * 7919 + i * 104729 & 65535 if n % 4 else 0
            else:
                k = 20 if t.op == 'hash' else lens[(n * (1 + i % 3) + i) % len(lens)]
                env[t] = bytes((j * 7 + i * 31 + n) & 255 for j in range(k))
        try:
            x, y = b''.join(evalt(t, env) for t in a), b''.join(evalt(t, env) for t in want)
        except (NoVal, TypeError):
            res = None
            continue
        if x != y:
            return False
    return res
