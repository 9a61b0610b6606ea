"""Builds the MIR driver and dumps the MIR of /repo's current working tree.

Nothing of /repo is executed apart from the build scripts cargo runs for dependencies.
"""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.environ.get('SA_CACHE', os.path.join(VERIF, '.cache'))
DRIVER_SRC = os.path.join(VERIF, 'driver')

# Standard-library code that is analysed like local code (everything else is modelled or opaque).
INLINE = ['core::option::', 'core::result::', 'core::ops::control_flow', 'core::cmp::', 'core::bool::',
          'core::convert::', 'core::ops::function', 'std::option::', 'std::result::', 'std::ops::ControlFlow', 'std::cmp::',
          'std::convert::', 'std::ops::function', 'std::ops::try_trait']

CONFIGS = {
    # name -> (crate name, cargo arguments)
    'lib': ('dnssec_prover', ['--lib', '--features', 'std,tokio,validation']),
    'bin': ('http_proof_gen', ['--bin', 'http_proof_gen', '--features', 'build_server']),
    'wasm': ('dnssec_prover_wasm', ['--manifest-path', 'wasmpack/Cargo.toml']),
}


class DumpError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('RUSTFLAGS') or k.startswith('CARGO_ENCODED') or k in ('RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
            del env[k]
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'      # cached query results would bypass the driver's hooks
    env['CARGO_TERM_COLOR'] = 'never'
    return env


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules', 'pkg'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.js')):
                files.append(os.path.join(root, f))
    for p in files:
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    for p in (os.path.join(DRIVER_SRC, 'src/main.rs'), os.path.abspath(__file__)):
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _run(cmd, env, cwd, log):
    with open(log, 'w') as fh:
        r = subprocess.run(cmd, env=env, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        with open(log) as fh:
            tail = fh.read()[-3000:]
        raise DumpError('%s failed (%d):\n%s' % (' '.join(cmd), r.returncode, tail))


def driver():
    tgt = os.path.join(CACHE, 'driver')
    _run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', tgt], _env(), DRIVER_SRC,
         os.path.join(CACHE, 'driver.log'))
    return os.path.join(tgt, 'release', 'mirdump')


def _crate_name(cfg):
    if cfg != 'wasm':
        return CONFIGS[cfg][0]
    # read the package name of the wrapper
    import tomllib
    with open(os.path.join(REPO, 'wasmpack/Cargo.toml'), 'rb') as fh:
        t = tomllib.load(fh)
    return (t.get('lib', {}).get('name') or t['package']['name']).replace('-', '_')


def dump(cfg):
    """Returns the parsed dump of one configuration of /repo's current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = repo_hash()
        out = os.path.join(CACHE, 'dumps', h, cfg)
        crate = _crate_name(cfg)
        path = os.path.join(out, crate + '.json')
        if not os.path.exists(path):
            base = os.path.join(CACHE, 'dumps')
            if os.path.isdir(base):
                old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d != h)
                for _, d in old[:-6]:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            drv = driver()
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, env=_env()).stdout.strip()
            env = _env()
            env['LD_LIBRARY_PATH'] = sysroot + '/lib'
            env['RUSTC_WORKSPACE_WRAPPER'] = drv
            env['MIRDUMP_CRATES'] = crate
            env['MIRDUMP_OUT'] = out
            env['MIRDUMP_INLINE'] = ','.join(INLINE)
            tgt = os.path.join(CACHE, 'target-' + cfg)
            # cargo does not know that the wrapper has side effects: forget the crate's own fingerprint
            own = ('dnssec-prover', 'dnssec_prover', 'http_proof_gen', 'http-proof-gen', crate.replace('_', '-'), crate)
            for sub in ('.fingerprint', 'build', 'incremental'):
                fp = os.path.join(tgt, 'debug', sub)
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(own):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            # Work on a copy so that nothing (lock files included) is ever written to /repo.
            src = os.path.join(CACHE, 'src')
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(REPO, src, ignore=shutil.ignore_patterns('target', '.git', 'node_modules'))
            cmd = ['cargo', '+nightly', 'check', '--offline', '--target-dir', tgt] + CONFIGS[cfg][1]
            _run(cmd, env, src, os.path.join(CACHE, 'check-%s.log' % cfg))
            if not os.path.exists(path):
                raise DumpError('no dump produced for %s' % cfg)
        with open(path) as fh:
            return json.load(fh), path


if __name__ == '__main__':
    for c in sys.argv[1:] or list(CONFIGS):
        t = time.time()
        d, p = dump(c)
        print(c, p, len(d['fns']), 'fns', sum('body' in f for f in d['fns']), 'bodies', len(d['types']), 'types', '%.1fs' % (time.time() - t))
