"""Makes and confirms planted bugs.  python3 seed.py make|confirm|check [ID...]
make: writes /verif/seeded/ID from specs.py; confirm: builds, tests, demo on both trees; check: runs the checks on it."""
import json, os, shutil, subprocess, sys
from specs import SPECS
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def make(s):
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    for fn, old, new in s['edits']:
        p = os.path.join('/repo', fn)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], fn, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    clean()
    for f in ('demo.sh', 'main.rs', 'key.rs', 'zone.rs'):
        shutil.copy(os.path.join(HERE, f), d)
    if 'demo' in s:
        open(os.path.join(d, 'demo.sh'), 'w').write(s['demo'])
        for f in ('main.rs', 'key.rs', 'zone.rs'):
            os.remove(os.path.join(d, f))
        for k, v in s.get('files', {}).items():
            open(os.path.join(d, k), 'w').write(v)
    else:
        open(os.path.join(d, 'case.rs'), 'w').write(PRE + s['case'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


PRE = '''#![allow(unused_imports, dead_code)]
use crate::key::Key;
use crate::zone::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;
use std::convert::TryInto;

'''


def confirm(s, full):
    d = os.path.join(OUT, s['id'])
    clean()
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode != 0:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:])
        return False
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stdout
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        tail = [l for l in r.stdout.splitlines() if ('panicked' in l or 'error' in l) and 'help' not in l][:3]
        if r.returncode == 0:
            print(s['id'], 'DEMO PASSES WITH BUG')
            return False
        if any('error[' in l or 'could not compile' in l for l in r.stdout.splitlines()):
            print(s['id'], 'COMPILE ERROR', r.stdout[-1500:])
            return False
        if full:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(s['id'], 'BUILD FAILS', b.stdout[-800:])
                return False
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        j = json.load(open('/tmp/seedtest.json'))
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
        missing = base - set(j['passed'])
        print(s['id'], 'ok' if not missing else 'TESTS FAIL %s' % sorted(missing)[:3], tail[:2])
        return not missing
    finally:
        clean()


def check(s, ids=None):
    d = os.path.join(OUT, s['id'])
    clean()
    res = {}
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        assert a.returncode == 0, a.stdout
        for i in ids or [s['property']]:
            r = sh('/verif/check %s' % i, cwd='/verif')
            res[i] = (r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'bad' in l][:2])
    finally:
        clean()
    print(s['id'], s['property'], res)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    full = '--full' in ids
    ids = [i for i in ids if not i.startswith('--')]
    for s in SPECS:
        if ids and s['id'] not in ids:
            continue
        if cmd == 'make':
            make(s)
        elif cmd == 'confirm':
            confirm(s, full)
        elif cmd == 'check':
            check(s)
        elif cmd == 'all':
            make(s)
            if confirm(s, full):
                check(s)
