"""Parsing, validating, resolving and encoding have no effects beyond their arguments, and no unsafe code.

The call graph is walked from every function of the crate that is not (only) part of the network drivers - the public
functions that take a socket address, and what only they reach.  Every body on the way is read for calls of effectful
library functions (clock, environment, files, network, randomness, threads, standard streams), thread-local accesses,
mutable or interior-mutable statics, and addresses turned into numbers; the syntax tree of every crate is read for
unsafe blocks of its own.
"""
RULE = 'effect analysis over the call graph: no effectful call, static, thread-local or address; no unsafe block'
import re
from base import *

# what library functions are called -> effect
EFFECTS = [
    (r'^std::time::(Instant|SystemTime)::(now|elapsed)|^<?std::time::.*::now$|^std::sys::time', 'reads the clock'),
    (r'^tokio::time::|^std::thread::sleep', 'waits on the clock'),
    (r'^std::env::', 'reads or writes the environment'),
    (r'^std::fs::|^tokio::fs::|\bstd::fs::File\b', 'reads or writes files'),
    (r'^std::net::(TcpStream|TcpListener|UdpSocket)::|<std::net::(TcpStream|TcpListener|UdpSocket) as|std::net::ToSocketAddrs|^tokio::net::', 'uses the network'),
    (r'^std::process::|^tokio::process::', 'uses processes'),
    (r'^std::os::', 'uses the operating system'),
    (r'^std::thread::(spawn|Builder|current|park|scope|available_parallelism|JoinHandle)|^std::thread::functions::|^tokio::(spawn|task|runtime)', 'uses threads'),
    (r'^std::thread::(local|LocalKey)|^std::thread::local_impl|LocalKey', 'uses thread-local state'),
    (r'^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr)\b|_e?print$', 'uses the standard streams'),
    (r'RandomState::(new|build_hasher)|BuildHasher>?::hash_one|^std::hash::(random|BuildHasher)|^(rand|getrandom|fastrand)::|^ring::rand::', 'uses randomness'),
    (r'^std::collections::(hash_map::|hash_set::|hash::)?(map::|set::)?(HashMap|HashSet)::.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|difference|union|intersection|symmetric_difference)$'
     r'|^<?&?(\'a )?(mut )?std::collections::(Hash|hash)[A-Za-z_:]*<.* as (std::iter::)?IntoIterator>?', 'depends on the random order of a hash table'),
    (r'::addr$|::expose_provenance$|::expose_addr$|Argument::<.*>::new_pointer$', 'turns an address into a number'),
    (r'^std::backtrace::|^std::alloc::(System|set_alloc)', 'uses the runtime environment'),
]
EFFECTS = [(re.compile(p), w) for p, w in EFFECTS]
KNOWN = ('core', 'std', 'alloc', 'bitcoin_hashes', 'ring', 'hex_lit', 'hex_conservative', 'tokio', 'tokio_crate')


def effect(path):
    for p, w in EFFECTS:
        if p.search(path):
            return w
    return None


def refs(P, f):
    """(instances mentioned, statics mentioned, thread-locals, address casts) of a body."""
    ins, stats, tls, addr = {}, [], [], []

    def walk(x, span):
        if isinstance(x, dict):
            if isinstance(x.get('i'), int) and 'd' in x:
                ins.setdefault(x['i'], span)
            if isinstance(x.get('t'), int):
                ty(x['t'], span)
            if isinstance(x.get('fn'), int):
                ins.setdefault(x['fn'], span)
            if 'static' in x:
                stats.append((x['static'], x.get('frozen'), span))
            for v in x.values():
                walk(v, span)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == 'tls':
                tls.append((x[1], span))
            elif len(x) >= 3 and x[0] == 'agg' and isinstance(x[1], list) and x[1] and x[1][0] in ('closure', 'coroutine'):
                ins.setdefault(x[1][2], span)
            elif len(x) >= 4 and x[0] == 'cast' and 'Expose' in str(x[1]):
                addr.append(span)
            for v in x:
                walk(v, span)

    def ty(i, span):
        t = P.types[i]
        if isinstance(t.get('i'), int) and t['k'] in ('fndef', 'closure', 'coroutine'):
            ins.setdefault(t['i'], span)
    for bb in f['body']['bbs']:
        for s in bb['s']:
            walk(s, s[-1])
        walk(bb['t'], bb['t'][-1] if isinstance(bb['t'], list) else '')
    return ins, stats, tls, addr


def check(ctx, rep):
    for cfg in ('lib', 'bin', 'wasm'):
        P = ctx.prog(cfg)
        for u in P.j['unsafe']:
            if not u['foreign_macro']:
                rep.bad('unsafe', 'unsafe block in %s' % P.j['crate'], u['span'])
        rep.good('unsafe:%s' % P.j['crate'], 'every block of the crate read for unsafe code', '')
    P = ctx.prog()
    cache = {}

    def of(f):
        if f['id'] not in cache:
            cache[f['id']] = refs(P, f)
        return cache[f['id']]

    local = [f for f in P.fns if f.get('local') and 'body' in f]

    def net(f):
        return '{' not in f['path'] and any('SocketAddr' in (sig_ty(P, f['body']['locals'][i + 1])) for i in range(f['body']['argc']))

    def closure(fs):
        seen, todo = {}, [(f, ()) for f in fs]
        while todo:
            f, via = todo.pop()
            if f['id'] in seen:
                continue
            seen[f['id']] = via
            if 'body' in f:
                for i in of(f)[0]:
                    g = P.fns[i]
                    if 'body' in g:
                        todo.append((g, via + (f['path'],)))
        return seen
    drivers = [f for f in local if net(f)]
    dset = closure(drivers)
    # a helper of the drivers alone performs their network traffic; what the public, address-free functions reach is pure
    pure = [f for f in local if f['id'] not in dset or (f['pub'] and not net(f)) or (f.get('trait') and '{' not in f['path'])]
    reach = closure(pure)
    fns = [P.fns[i] for i in reach if 'body' in P.fns[i]]
    ctx.analysed |= {f['path'] for f in fns}
    n = 0
    stat = {s['p']: s for s in P.j['statics']}
    for f in fns:
        ins, stats, tls, addr = of(f)
        name = f['path']
        for i, span in sorted(ins.items()):
            g = P.fns[i]
            if 'body' in g:
                continue
            n += 1
            w = effect(g['path'])
            if w:
                rep.bad('effect', '%s %s through %s%s' % (name, w, g['path'][:100], via(reach[f['id']])), span)
            elif g['kind'] == 'virtual' and not g['path'].startswith(('core::fmt', 'std::fmt', 'std::error', 'core::error')):
                rep.unknown('effect', '%s calls %s of an unknown type' % (name, g['path'][:80]), span)
            elif crate(g['path']) not in KNOWN and not g.get('local'):
                rep.unknown('effect', '%s calls %s' % (name, g['path'][:80]), span)
        for s, frozen, span in stats:
            m = stat.get(s)
            rep.judge('static', frozen and not (m and m['mut']), '%s uses static %s%s' % (name, s, '' if frozen else ', which can change'), span)
        for s, span in tls:
            rep.bad('static', '%s uses thread-local %s%s' % (name, s, via(reach[f['id']])), span)
        for span in addr:
            rep.bad('address', '%s turns an address into a number' % name, span)
    rep.good('pure', '%d functions and %d calls into libraries without effect' % (len(fns), n), '')
    rep.floor('functions', len(fns), 60)
    for a in ('parse_rr_stream', 'write_rr', 'verify_rr_stream', 'resolve_name'):
        ok_ = any(f['name'] == a for f in fns)
        rep.judge('anchor:' + a, ok_, '%s is analysed' % a if ok_ else '%s not found' % a, '')


def crate(p):
    return re.sub(r"^[<&'\w ]*?((?:\w+)::).*", r'\1', p)[:-2] if '::' in p else p


def sig_ty(P, i):
    t = P.types[P.deref_ty(i)]
    return '%s' % (t.get('p') or t.get('n') or '')


def via(path):
    return ' (via %s)' % ' > '.join(p.split('::')[-1] for p in path[-4:]) if path else ''
