"""Modular contracts: calls to these functions are replaced by a term with the given meaning.

Every contract is discharged separately by a rule that analyses the function's own body, so an edit to
the body is judged there, and callers are judged against the contract.
"""
from terms import *
import facts as F
from natives import LOG, some, none, ok, err, part, oblig, as_it, comp_of, to_stream, one, seqit, stream

NAME = 'dnssec_prover::rr::Name'


def st_set(I, st, ref, v):
    st = st.copy()
    I.store_ref(st, ref, [], v)
    return st


def append_into(I, st, ref, x):
    """Append bytes x to the writer behind ref (byte vector or hash state)."""
    v = I.val(st, ref)
    if v.op == 'agg' and len(v.a[2]) == 1:
        n = mk('agg', v.a[0], v.a[1], (ext(I.val(st, v.a[2][0]), x),))
    elif v.op == 'agg':
        return None
    else:
        n = ext(v, x)
    return st_set(I, st, ref, n)


def nstr(I, st, v):
    """The text of a Name value or of a &str."""
    v = I.val(st, v)
    return v


def name_text(I, cx, st, v, i=0):
    """Text of argument i, be it &Name or &str."""
    v = I.val(st, v)
    ty = cx.argtys[i] if cx.argtys and i < len(cx.argtys) else None
    if ty is not None:
        T_ = I.P.types[I.P.deref_ty(ty)]
        if T_['k'] == 'struct' and T_['p'].endswith('rr::Name'):
            return I.field(v, 0, None, I.P.deref_ty(ty), None)
    return v


def wname(s):
    if s.op == 'bytes' and s.a[0] == b'.':
        return byts(b'\0')
    return mk('wname', s)


def c_write_name(I, cx, st, args):
    s = append_into(I, st, args[0], wname(name_text(I, cx, st, args[1], 1)))
    return None if s is None else [(s, UNIT)]


def c_name_len(I, cx, st, args):
    t = seqlen(wname(name_text(I, cx, st, args[0])))
    set_range(t, irange(1, 255))
    return one(st, t)


def c_labels(I, cx, st, args):
    t = mk('nlabels', name_text(I, cx, st, args[0]))
    set_range(t, irange(0, 127))
    return one(st, t)


def c_tnl(I, cx, st, args):
    s, n = name_text(I, cx, st, args[0]), I.val(st, args[1])
    nl = mk('nlabels', s)
    set_range(nl, irange(0, 127))
    set_range(n, irange(0, 255))
    out = []
    # None exactly when the name has fewer labels
    for s2, b in part(st, le(n, nl)):
        out.append((s2, some(mk('tnl', s, n)) if b else none()))
    return out


def c_key_tag(I, cx, st, args):
    t = mk('keytag', I.val(st, args[0]))
    set_range(t, irange(0, 65535))
    return one(st, t)


def c_resolve_time(I, cx, st, args):
    t = mk('rtime', I.val(st, args[0]))
    set_range(t, irange(0, (1 << 33)))
    return one(st, t)


def c_in_zone(I, cx, st, args):
    a, b = name_text(I, cx, st, args[0], 0), name_text(I, cx, st, args[1], 1)
    t = mk('inzone', a, b) if a is not b else TRUE
    if t.op == 'inzone':
        set_range(t, BOOL)
    return one(st, t)


def c_nsec_ord(I, cx, st, args):
    a, b = name_text(I, cx, st, args[0], 0), name_text(I, cx, st, args[1], 1)
    t = mk('nsecord', a, b)
    set_range(mk('discr', t), irange(-1, 1))
    out = []
    for n in (-1, 0, 1):
        s = st.assume(mk('discr', t), iset(n))
        if s is not None:
            out.append((s, mk('agg', 'std::cmp::Ordering', n + 1, ())))
    return out


def c_rsa(I, cx, st, args):
    k = I.val(st, args[0])
    d = mk('discr', mk('rsapk', k))
    set_range(d, BOOL)
    out = []
    for v in (0, 1):
        s = st.assume(d, iset(v))
        if s is not None:
            out.append((s, ok(mk('rsacomp', k)) if v == 0 else err(UNIT)))
    return out


def c_root_hints(I, cx, st, args):
    return one(st, mk('roothints'))


def vres(I, st, t, okv):
    """Result<okv, ValidationError> selected by t (0 Ok, 1 UnsupportedAlgorithm, 2 Invalid)."""
    VE = 'dnssec_prover::validation::ValidationError'
    VE = next((p for p in I.P.adt if p.endswith('validation::ValidationError')), VE)
    ui, ii = I.P.variant_index(VE, 'UnsupportedAlgorithm'), I.P.variant_index(VE, 'Invalid')
    if ui is None or ii is None:
        return None
    out = []
    for v in (0, 1, 2):
        s = st.assume(t, iset(v))
        if s is not None:
            out.append((s, ok(okv) if v == 0 else err(mk('agg', VE, ui if v == 1 else ii, ()))))
    return out


def seq_of(I, cx, st, v, tag):
    v0 = v
    v = I.val(st, v)
    it = as_it(I, st, v)
    if it is None:
        return v
    return comp_of(I, cx, st, it, tag)


def c_verify_rrsig(I, cx, st, args):
    sig = I.val(st, args[0])
    K = seq_of(I, cx, st, args[1], 'keys')
    R = seq_of(I, cx, st, args[2], 'recs')
    t = mk('vsig', sig, K, R)
    set_range(t, irange(0, 2))
    cx.ev('vsig', 'verify_rrsig', (sig, K, R), st)
    return vres(I, st, t, UNIT)


def c_verify_dnskeys(I, cx, st, args):
    S = seq_of(I, cx, st, args[0], 'sigs')
    D = seq_of(I, cx, st, args[1], 'dses')
    R = seq_of(I, cx, st, args[2], 'recs')
    t = mk('vdk', S, D, R)
    set_range(t, irange(0, 2))
    cx.ev('vdk', 'verify_dnskeys', (S, D, R), st)
    sig = mk('vdksig', S, D, R)
    rty = None
    T_ = I.P.types[cx.destty]
    if T_.get('a'):
        I.note(sig, T_['a'][0])
    out = vres(I, st, t, sig)
    if out is None:
        return None
    # on success also record that these keys were accepted, whatever authenticated them
    g = mk('dkok', R)
    set_range(g, BOOL)
    res = []
    for s, v in out:
        if v.a[1] == 0:
            s = s.assume(g, iset(1))
        res.append((s, v))
    return res


# ------------------------------------------------------------------ query buffers are byte strings
def q_new(I, cx, st, args):
    return one(st, mk('rep', num(0), I.val(st, args[0])) if not is_num(I.val(st, args[0])) else byts(bytes(I.val(st, args[0]).a[0])))


def q_ext(I, cx, st, args):
    v, x = I.val(st, args[0]), I.val(st, args[1])
    return [(st_set(I, st, args[0], ext(v, x)), UNIT)]


def q_id(I, cx, st, args):
    return one(st, I.val(st, args[0]))


def q_mut(I, cx, st, args):
    return one(st, args[0])


def c_build_query(I, cx, st, args):
    return one(st, mk('query', name_text(I, cx, st, args[0]), I.val(st, args[1])))


def c_base32_decode(I, cx, st, args):
    s = I.val(st, args[0])
    d = mk('discr', mk('b32', s))
    set_range(d, BOOL)
    out = []
    for v in (0, 1):
        s2 = st.assume(d, iset(v))
        if s2 is not None:
            out.append((s2, ok(mk('b32dec', s)) if v == 0 else err(UNIT)))
    return out


def c_rdata_lp(I, cx, st, args):
    """RR/Record::write_u16_len_prefixed_data on an opaque record."""
    v = I.val(st, args[0])
    if v.op == 'agg':
        return None
    T_ = I.P.types[I.P.deref_ty(cx.argtys[0])] if cx.argtys else None
    s = append_into(I, st, args[1], mk('rdata_lp', v))
    if s is None:
        return None
    set_range(seqlen(mk('rdata_lp', v)), irange(2, 65537))
    return [(s, UNIT)]


def c_rr_name(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op == 'agg':
        return None
    r = mk('rrname', v)
    if cx.destty is not None:
        I.note(r, cx.destty)
    return one(st, r)


def c_rr_ty(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op == 'agg':
        return None
    r = mk('rrty', v)
    set_range(r, irange(0, 65535))
    return one(st, r)


def c_read_wire_name(I, cx, st, args):
    """Ok(name) consuming a prefix of the input, or Err leaving it unspecified."""
    inp, pkt = I.val(st, args[0]), I.val(st, args[1])
    t = mk('rdname', inp, pkt)
    d = mk('discr', t)
    set_range(d, BOOL)
    used = mk('namelen_in', inp, pkt)
    set_range(used, irange(1, 1 << 16))
    out = []
    s = st.assume(d, iset(0))
    if s is not None:
        s = s.assume(le(used, seqlen(inp)), iset(1))
    if s is not None:
        nm = mk('fld', t, 'Ok.0')
        T_ = I.P.types[cx.destty]
        if T_.get('a'):
            I.note(nm, T_['a'][0])
        s = st_set(I, s, args[0], slice_(inp, used, seqlen(inp)))
        out.append((s, ok(nm)))
    s = st.assume(d, iset(1))
    if s is not None:
        s = st_set(I, s, args[0], mk('unk', 'after_name_error', inp))
        out.append((s, err(UNIT)))
    return out


def c_parse_wire_rr(I, cx, st, args):
    inp, pkt = I.val(st, args[0]), I.val(st, args[1])
    t = mk('prr', inp, pkt)
    d = mk('discr', t)
    set_range(d, BOOL)
    used = mk('rrlen_in', inp, pkt)
    set_range(used, irange(11, 1 << 17))
    out = []
    s = st.assume(d, iset(0))
    if s is not None:
        s = s.assume(le(used, seqlen(inp)), iset(1))
    if s is not None:
        rr = mk('prr_rr', inp, pkt)
        ttl = mk('prr_ttl', inp, pkt)
        set_range(ttl, irange(0, (1 << 32) - 1))
        T_ = I.P.types[cx.destty]
        if T_.get('a'):
            I.note(rr, I.P.types[T_['a'][0]]['f'][0])
        s = st_set(I, s, args[0], slice_(inp, used, seqlen(inp)))
        out.append((s, ok(tup(rr, ttl))))
    s = st.assume(d, iset(1))
    if s is not None:
        s = st_set(I, s, args[0], mk('unk', 'after_rr_error', inp))
        out.append((s, err(UNIT)))
    return out


def c_write_rr(I, cx, st, args):
    rr, ttl = I.val(st, args[0]), I.val(st, args[1])
    s = append_into(I, st, args[2], mk('wrr', rr, ttl))
    return None if s is None else [(s, UNIT)]


def c_write_bitmap(I, cx, st, args):
    s = append_into(I, st, args[0], mk('wbitmap', I.val(st, args[1])))
    return None if s is None else [(s, UNIT)]


def c_bitmap_len(I, cx, st, args):
    t = seqlen(mk('wbitmap', I.val(st, args[0])))
    set_range(t, irange(0, 256 * 34))
    return one(st, t)


def c_read_bitmap(I, cx, st, args):
    inp = I.val(st, args[0])
    t = mk('rdbitmap', inp)
    d = mk('discr', t)
    set_range(d, BOOL)
    out = []
    for v in (0, 1):
        s = st.assume(d, iset(v))
        if s is not None:
            s = st_set(I, s, args[0], NIL if v == 0 else mk('unk', 'after_bitmap_error', inp))
            out.append((s, ok(mk('fld', t, 'Ok.0')) if v == 0 else err(UNIT)))
    return out


def c_name_try_from(I, cx, st, args):
    s = I.val(st, args[0])
    v = mk('validname', s)
    set_range(v, BOOL)
    nmt = next((p for p in I.P.adt if p.endswith('rr::Name')), NAME)
    out = []
    for s2, b in part(st, v):
        out.append((s2, ok(mk('agg', nmt, 0, (lower(s),))) if b else err(UNIT)))
    return out


def c_json(I, cx, st, args):
    v = I.val(st, args[0])
    if v.op == 'agg':
        return None
    return one(st, mk('rrjson', v))


# the proof builder as seen by the code driving it (used by the rules of C29, C30 and C34 only): an opaque state, changed by
# each response fed, with the log recording what is done in which order
def d_log(I, st, *tok):
    st = st.copy()
    st.store[LOG] = mk('ext', st.store.get(LOG, NIL), mk('io', *tok))
    st._k = None
    return st


def d_new(I, cx, st, args):
    n, ty = name_text(I, cx, st, args[0]), I.val(st, args[1])
    b = mk('pbs', 'new', n, ty)
    cx.ev('builder', 'new', (n, ty), st)
    return one(d_log(I, st, 'new', n, ty), mk('agg', 'tuple', 0, (b, mk('pq0', b))))


def d_awaiting(I, cx, st, args):
    t = mk('awaiting', I.val(st, args[0]))
    set_range(t, BOOL)
    return one(st, t)


def d_process(I, cx, st, args):
    b, resp = I.val(st, args[0]), I.val(st, args[1])
    cx.ev('builder', 'feed', (b, resp), st)
    t = mk('accepted', b, resp)
    set_range(t, BOOL)
    out = []
    for s, v in part(st, t):
        s = d_log(I, s, 'feed' if v else 'refused', b, resp)
        if v:
            s = st_set(I, s, args[0], mk('pbs', 'fed', b, resp))
        out.append((s, ok(mk('qs', b, resp)) if v else err(UNIT)))
    return out


def d_finish(I, cx, st, args):
    b = I.val(st, args[0])
    cx.ev('builder', 'finish', (b,), st)
    t = mk('complete', b)
    set_range(t, BOOL)
    out = []
    for s, v in part(st, t):
        ttl = mk('proofttl', b)
        set_range(ttl, irange(0, (1 << 32) - 1))
        out.append((d_log(I, s, 'finished', b), ok(mk('agg', 'tuple', 0, (mk('proofof', b), ttl)))) if v else (d_log(I, s, 'incomplete', b), err(UNIT)))
    return out


DRIVE = {'ProofBuilder::new': d_new, 'ProofBuilder::awaiting_responses': d_awaiting, 'ProofBuilder::process_response': d_process,
         'ProofBuilder::finish_proof': d_finish}

# the proof builders as called by the HTTP server
def s_build(kind):
    def go(I, cx, st, args):
        return one(st, mk('agg', 'bfut', 0, (mk('k', kind), I.val(st, args[0]), name_text(I, cx, st, args[1], 1))))
    return go


def polled_build(I, cx, st, v):
    """A proof builder of the server awaited."""
    kind, res, nm = v.a[2]
    cx.ev('build', kind.a[0], (res, nm), st)
    b = mk('isbuilt', res, nm)
    set_range(b, BOOL)
    ttl = mk('builtttl', res, nm)
    set_range(ttl, irange(0, (1 << 32) - 1))
    out = []
    for s, v in part(st, b):
        out.append((d_log(I, s, 'built', res, nm), ok(mk('agg', 'tuple', 0, (mk('built', res, nm), ttl)))) if v
                   else (d_log(I, s, 'unbuilt'), err(mk('builderr', cx.site))))
    return out


SERVE = {'build_%s_proof_async' % k: s_build(k) for k in ('a', 'aaaa', 'txt', 'tlsa')}
SERVE['*poll'] = polled_build


# the library as used by the browser wrapper (another crate)
def w_parse(I, cx, st, args):
    x = I.val(st, args[0])
    cx.ev('lib', 'parse', (x,), st)
    v = mk('parses', x)
    set_range(v, BOOL)
    return [(s, ok(mk('parsed', x)) if b else err(UNIT)) for s, b in part(st, v)]


def w_verify(I, cx, st, args):
    x = I.val(st, args[0])
    cx.ev('lib', 'verify', (x,), st)
    v = mk('verifies', x)
    set_range(v, BOOL)
    return [(s, ok(mk('verified', x)) if b else err(mk('verr', x))) for s, b in part(st, v)]


def w_lib(I, cx, st, args):
    """Any other function of the library on shared data: an unknown function of it (C31)."""
    for t in cx.argtys or ():
        T_ = I.P.types[t]
        if T_['k'] == 'ref' and T_['mut'] or T_['k'] not in ('ref', 'int', 'bool', 'char', 'struct', 'enum'):
            return None
    return one(st, mk('libcall', cx.f['path'], tuple(I.val(st, a) for a in args)))


WASM = {**DRIVE, '*lib': w_lib, 'parse_rr_stream': w_parse, 'verify_rr_stream': w_verify, '*extern': 'dnssec_prover::'}

ALL = {
    'write_name': c_write_name, 'name_len': c_name_len, 'Name::labels': c_labels, 'Name::trailing_n_labels': c_tnl,
    'DnsKey::key_tag': c_key_tag, 'resolve_time': c_resolve_time, 'name_in_zone': c_in_zone, 'nsec_ord': c_nsec_ord,
    'bytes_to_rsa_pk': c_rsa, 'root_hints': c_root_hints, 'verify_rrsig': c_verify_rrsig, 'verify_dnskeys': c_verify_dnskeys,
    'QueryBuf::new_zeroed': q_new, 'QueryBuf::extend_from_slice': q_ext, 'QueryBuf::into_vec': q_id,
    'QueryBuf as Deref::deref': q_id, 'QueryBuf as DerefMut::deref_mut': q_mut, 'QueryBuf as Clone::clone': q_id,
    'QueryBuf as Writer::write': q_ext, 'build_query': c_build_query, 'base32::decode': c_base32_decode,
    'RR as Record::write_u16_len_prefixed_data': c_rdata_lp, 'RR::write_u16_len_prefixed_data': c_rdata_lp,
    'RR::name': c_rr_name, 'RR as Record::name': c_rr_name, 
    'RR::json': c_json, 'RR as Record::json': c_json,
    'read_wire_packet_name': c_read_wire_name, 'parse_wire_packet_rr': c_parse_wire_rr, 'write_rr': c_write_rr,
    'write_nsec_types_bitmap': c_write_bitmap, 'nsec_types_bitmap_len': c_bitmap_len, 'read_nsec_types_bitmap': c_read_bitmap,
    'Name as TryFrom<String>::try_from': c_name_try_from,
}


def cuts(*skip):
    return {k: v for k, v in ALL.items() if k not in skip}


def only(*names):
    return {k: ALL[k] for k in names}
