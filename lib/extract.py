"""Build the MIR extractor and run it on /repo's current working tree (cached by content hash)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOLCHAIN = '+nightly'
CONFIGS = {'all': ['--all-features'], 'none': ['--no-default-features']}


class ExtractError(Exception):
    pass


def _run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.pop('RUSTC_WRAPPER', None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = []
            for d, ds, fs in os.walk(base):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_driver():
    src = os.path.join(VERIF, 'extractor')
    h = tree_hash([src])
    stamp = os.path.join(BUILD, 'extractor.stamp')
    exe = os.path.join(BUILD, 'extractor', 'debug', 'mirdump')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, h
    rc, out = _run(['cargo', TOOLCHAIN, 'build', '--offline'], src,
                   {'CARGO_TARGET_DIR': os.path.join(BUILD, 'extractor')})
    if rc != 0:
        raise ExtractError('building the MIR extractor failed:\n' + out[-3000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return exe, h


def repo_inputs():
    r = [os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo')]
    return [x for x in r if os.path.exists(x)]


def extract(config='all'):
    """returns (json data, info)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe, dh = build_driver()
        key = hashlib.sha256((dh + tree_hash(repo_inputs()) + repr(CONFIGS[config])).encode()).hexdigest()
        out = os.path.join(BUILD, 'mir-%s.json' % config)
        stamp = out + '.key'
        fresh = False
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
            fresh = True
            target = os.path.join(BUILD, 'target')
            for p in (out, stamp):
                if os.path.exists(p):
                    os.remove(p)
            # force cargo to run the extractor again (both layouts of cargo's build directory)
            for fp in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build')):
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d == 'metrix' or d.startswith('metrix-'):
                            shutil.rmtree(os.path.join(fp, d))
            sysroot = subprocess.run(['rustc', TOOLCHAIN, '--print', 'sysroot'], stdout=subprocess.PIPE,
                                     text=True).stdout.strip()
            ld = os.path.join(sysroot, 'lib')
            env = {'CARGO_TARGET_DIR': target, 'RUSTC_WORKSPACE_WRAPPER': exe, 'MIRDUMP_OUT': out,
                   'LD_LIBRARY_PATH': ld, 'CARGO_INCREMENTAL': '0'}
            rc, log = _run(['cargo', TOOLCHAIN, 'check', '--lib', '--offline'] + CONFIGS[config], REPO, env)
            if rc != 0 or not os.path.exists(out):
                raise ExtractError('type-checking /repo failed (rc=%s)\n%s' % (rc, log[-3000:]))
            with open(stamp, 'w') as f:
                f.write(key)
        with open(out) as f:
            data = json.load(f)
    return data, {'config': config, 'fresh': fresh, 'key': key[:16]}


if __name__ == '__main__':
    for c in (sys.argv[1:] or ['all']):
        d, i = extract(c)
        print(i, len(d['fns']), 'bodies', len(d['ext']), 'std bodies', len(d['adts']), 'types')
