"""Debug helper: print the MIR of functions whose path contains a string."""
import sys, json
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dump import dump

def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'i': s += '[_%d]' % e[1]
        elif e[0] == 'd': s += ' as v%d' % e[1]
        else: s += str(e)
    return s
def op(o, d):
    if o[0] in 'cm': return ('move ' if o[0] == 'm' else '') + pl(o[1])
    if o[0] == 'k':
        v = o[1]['v']
        if 'fnty' in v: return 'fn:' + d['types'][v['fnty']]['n']
        return json.dumps(v)
    return str(o)
def rv(r, d):
    k = r[0]
    if k == 'use': return op(r[1], d)
    if k == 'ref': return '&%s%s' % ('mut ' if r[1] else '', pl(r[2]))
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2], d), op(r[3], d))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2], d))
    if k == 'cast': return '%s as %s (%s)' % (op(r[2], d), d['types'][r[3]]['n'], r[1])
    if k == 'discr': return 'discr(%s)' % pl(r[1])
    if k == 'agg':
        n = r[1][0]
        if n in ('adt', 'closure', 'coroutine'): n += ' ' + d['types'][r[1][1]]['n'] + ('#%s' % r[1][2])
        return '%s{%s}' % (n, ', '.join(op(o, d) for o in r[2]))
    if k == 'rep': return '[%s; %s]' % (op(r[1], d), r[2])
    return str(r)
def show(f, d):
    b = f['body']
    print('=== #%d %s  [%s] %s' % (f['id'], f['full'], f['span'], f['kind']))
    for i, t in enumerate(b['locals']):
        print('   _%d: %s %s' % (i, d['types'][t]['n'], b['dbg'].get(str(i), '')))
    for i, bb in enumerate(b['bbs']):
        if bb['c']: continue
        print(' bb%d:' % i)
        for s in bb['s']:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(s[2], d)))
            elif s[0] == 'sdead': pass
            else: print('   ', s)
        t = bb['t']
        if t[0] == 'call':
            c = t[1]
            n = d['fns'][c['i']]['full'] if 'i' in c else str(c)
            print('    %s = CALL %s(%s) -> %s   @%s' % (pl(t[4]), n, ', '.join(op(o, d) for o in t[2]), t[6], t[7]))
        elif t[0] == 'switch':
            print('    SWITCH %s %s else %s' % (op(t[1], d), t[3], t[4]))
        elif t[0] == 'assert':
            print('    ASSERT %s==%s %s -> %s' % (op(t[1], d), t[2], t[3][0], t[4]))
        else: print('   ', t)
if __name__ == '__main__':
    d, _ = dump(sys.argv[1])
    for f in d['fns']:
        if 'body' in f and sys.argv[2] in f['full']: show(f, d)
