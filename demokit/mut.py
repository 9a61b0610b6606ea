"""Runs the checks on many small edits in scratch copies.  python3 mut.py [-j N] [FILTER...]
Each entry of muts.MUTS: (id, [properties expected to report], [(file, old, new)...]); no property: the edit keeps behaviour
and every check listed by ALL has to stay quiet."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, threading
import muts
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('MUT_ROOT', '/tmp/mutwork')
local = threading.local()
cnt = [0]
lk = threading.Lock()


def slot():
    if not hasattr(local, 'i'):
        with lk:
            local.i = cnt[0]
            cnt[0] += 1
        d = os.path.join(ROOT, 's%d' % local.i)
        if not os.path.isdir(d + '/cache'):
            os.makedirs(d, exist_ok=True)
            subprocess.run(['cp', '-a', os.path.join(VERIF, '.cache'), d + '/cache'], check=True)
    return os.path.join(ROOT, 's%d' % local.i)


def run(m, checks):
    mid, props, edits = m[:3]
    d = slot()
    rp = d + '/repo'
    subprocess.run(['rm', '-rf', rp])
    shutil.copytree('/repo', rp, ignore=shutil.ignore_patterns('target', '.git', 'node_modules'))
    for fn, old, new in edits:
        p = os.path.join(rp, fn)
        t = open(p).read()
        if t.count(old) != 1:
            return mid, 'EDIT DOES NOT APPLY (%d) %s' % (t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))
    env = dict(os.environ, SA_REPO=rp, SA_CACHE=d + '/cache', SA_EVID=d + '/evid')
    out, fired, build = [], [], None
    for c in (props or checks):
        r = subprocess.run([os.path.join(VERIF, 'check'), c], capture_output=True, text=True, env=env)
        if 'violated build at' in r.stdout or 'violated build:' in r.stdout:
            l = [x for x in r.stdout.splitlines() if 'error' in x][:3]
            return mid, 'DOES NOT COMPILE %s' % l
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            fired.append(c)
            if not props:
                out.append(c + ': ' + ' | '.join(l.strip()[:260] for l in r.stdout.splitlines() if l.startswith('  violated'))[:500])
        elif r.returncode != 0:
            out.append('%s: exit %d %s' % (c, r.returncode, (r.stdout + r.stderr)[-300:]))
        elif props or os.environ.get('MUT_UNDECIDED'):
            u = [l.strip()[:200] for l in r.stdout.splitlines() if l.startswith('  unknown')]
            if props or u:
                out.append('%s %s: %s' % (c, 'missed; undecided' if props else 'undecided', u[:4]))
    if props:
        return mid, ('ok' if set(props) <= set(fired) else 'MISSED ' + ' || '.join(out))
    return mid, ('ok' if not out else 'FALSE ALARM ' + ' || '.join(out))


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 7
    if '-j' in a:
        i = a.index('-j')
        j = int(a[i + 1])
        del a[i:i + 2]
    checks = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    if '-c' in a:
        i = a.index('-c')
        checks = a[i + 1].split(',')
        del a[i:i + 2]
    ms = [m for m in muts.MUTS if not a or any(x in m[0] or x in m[1] for x in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for mid, res in ex.map(lambda m: run(m, checks), ms):
            print(mid, res[:900], flush=True)
