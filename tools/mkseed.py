#!/usr/bin/env python3
"""plant bugs: tools/mkseed.py FILE.py   (FILE defines SEEDS = [dict(id, prop, edits, demo, needs, breaks)])
A scratch copy of /repo is built with the change, its stable tests are run, and the demonstration is run with and without the change."""
import json, os, re, subprocess, sys, shutil, importlib.util, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/s'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2018 -A warnings -L dependency="$PWD/target/debug/deps" --extern metrix="$PWD/target/debug/libmetrix.rlib" -o "$d/demo" "$here/demo.rs" || exit 3
cd "$d" && timeout 200 ./demo
'''


def sh(cmd, cwd=S):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)


def build():
    return sh('cargo test --workspace --all-features --no-run --offline && cargo build --workspace --no-default-features --offline')


def tests():
    r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8')
    return dict(re.findall(r'^test (.*?) \.\.\. (\w+)', r.stdout, re.M))


def main():
    sp = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    only = sys.argv[2:]
    if not os.path.isdir(S):
        subprocess.run('cp -a /repo ' + S, shell=True, check=True)
    sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD')
    base = None
    for s in m.SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        if os.path.exists(os.path.join(d, 'meta.json')) and not only:
            continue
        sh('git checkout -q -- .')
        if base is None:
            r = build()
            assert r.returncode == 0, r.stderr[-2000:]
            base = tests()
        else:
            build()
        tmp = '/tmp/seedtmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.rs', 'w').write(s['demo'])
        open(tmp + '/demo.sh', 'w').write(DEMO)
        os.chmod(tmp + '/demo.sh', 0o755)
        r0 = sh('bash /tmp/seedtmp/demo.sh')
        bad = None
        for f, a, b in s['edits']:
            p = os.path.join(S, f)
            t = open(p).read()
            if t.count(a) != 1:
                bad = '%d matches of %r in %s' % (t.count(a), a[:60], f)
            open(p, 'w').write(t.replace(a, b, 1))
        if bad:
            print('%-34s %s' % (s['id'], bad))
            sh('git checkout -q -- .')
            continue
        rb = build()
        if rb.returncode:
            print('%-34s does not build\n%s' % (s['id'], rb.stderr[-1500:]))
            sh('git checkout -q -- .')
            continue
        t = tests()
        lost = [k for k, v in base.items() if v == 'ok' and t.get(k) != 'ok']
        r1 = sh('bash /tmp/seedtmp/demo.sh')
        ok = r0.returncode == 0 and r1.returncode != 0 and r1.returncode not in (0, 3 if not s.get('compile') else 0) and not lost
        print('%-34s %s base=%d patched=%d lost tests=%s' % (s['id'], 'OK' if ok else 'NO', r0.returncode, r1.returncode, lost[:3]))
        if not ok:
            print((r0.stdout + r0.stderr)[-700:], (r1.stdout + r1.stderr)[-300:])
        else:
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
            for n in ('demo.rs', 'demo.sh'):
                shutil.copy(os.path.join(tmp, n), os.path.join(d, n))
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        sh('git checkout -q -- .')
    shutil.rmtree('/tmp/seedtmp', ignore_errors=True)


main()
