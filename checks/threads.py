"""P26: what can be moved to, shared by and used from other threads - decided by the type checker on a file of witnesses."""
import fcntl
import json
import os
import re
import shutil
import subprocess

import extract

FILE = os.path.join(extract.VERIF, 'witness', 'witness.rs')
# the bound, lifetime or object safety a witness needs does not hold
BROKEN = {'E0277', 'E0038', 'E0521', 'E0310', 'E0309', 'E0597', 'E0716', 'E0373', 'E0204', 'E0282x'}


def witnesses():
    out, about = [], None
    for i, l in enumerate(open(FILE).read().split('\n'), 1):
        if l.startswith('//= '):
            about = (i, l[4:])
        m = re.match(r'fn (\w+)', l)
        if m and about:
            out.append((about[0], m.group(1), about[1]))
            about = None
    return out


def build(config):
    """compiler messages of the witnesses and of the crate"""
    top = os.path.join(extract.BUILD, 'witness-' + config)
    os.makedirs(os.path.join(top, 'pkg'), exist_ok=True)
    with open(os.path.join(top, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        dep = 'path = %s, default-features = %s' % (json.dumps(extract.REPO), 'false' if config == 'none' else 'true')
        with open(os.path.join(top, 'pkg', 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n[lib]\npath = %s\n[dependencies]\nmetrix = { %s }\n[workspace]\n' % (json.dumps(FILE), dep))
        src = os.path.join(extract.REPO, 'Cargo.lock')
        if os.path.exists(src):
            shutil.copyfile(src, os.path.join(top, 'pkg', 'Cargo.lock'))
        target = os.path.join(top, 'target')
        for fp in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build')):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.split('-')[0] in ('metrix', 'witness'):
                        shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS='-W unsafe_code', CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
        env.pop('RUSTC_WRAPPER', None)
        r = subprocess.run(['cargo', extract.TOOLCHAIN, 'check', '--offline', '--message-format=json'], cwd=os.path.join(top, 'pkg'), env=env,
                           capture_output=True, text=True)
    out = []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get('reason') == 'compiler-message':
            out.append((j['target']['name'], j['message']))
    return r.returncode, out, r.stderr


def prebuild():
    build('all')


def p26(ctx):
    R = 'thread'
    ctx.rule(R, 'each witness - a function that only type-checks if the promise holds - type-checks against the crate')
    U = 'unsafe'
    ctx.rule(U, 'the crate does not claim by itself that a type can be moved or shared (unsafe impl)')
    ws = witnesses()
    rc, msgs, err = build(ctx.config)
    bad, odd = {}, {}
    mine = [m for t, m in msgs if t == 'witness' and m['level'] == 'error' and m.get('spans')]
    if rc != 0 and not mine:
        ctx.undecided.append('the witnesses could not be type-checked: ' + (err.strip().splitlines() or [''])[-1][:200])
        return
    resolve = False
    for m in mine:
        sp = next((s for s in m['spans'] if s['is_primary']), m['spans'][0])
        line = sp['line_start'] if os.path.basename(sp['file_name']) == 'witness.rs' else 0
        w = max((x for x in ws if x[0] <= line), default=None)
        code = (m.get('code') or {}).get('code')
        broken = code in BROKEN or code == 'E0599' and 'trait bounds' in m['message'] or code is None and 'lifetime' in m['message'] or \
            code is None and 'cannot be sent between threads safely' in m['message'] or code is None and 'cannot be shared between threads' in m['message']
        if w is None or not broken:
            if code in ('E0432', 'E0433', 'E0412', 'E0425', 'E0405'):
                resolve = True
            odd.setdefault(w, []).append(m)
        else:
            bad.setdefault(w, []).append(m)
    for w in ws:
        if w in bad:
            m = bad[w][0]
            why = [c['message'] for c in m.get('children', []) if c.get('message')]
            ctx.ob(False, R, w[1], 'it no longer holds that %s: %s' % (w[2], m['message']), where='witness/witness.rs:%d' % w[0], detail='\n'.join(why)[:1500])
        elif w in odd:
            ctx.undecided.append('witness %s: %s' % (w[1], odd[w][0]['message'][:150]))
        elif not resolve:
            ctx.ob(True, R, w[1], '')
    if resolve:
        ctx.undecided.append('some names the witnesses use are gone, so that the others are not type-checked: ' + '; '.join(m['message'][:80] for ms in odd.values() for m in ms)[:300])
    n = 0
    for t, m in msgs:
        if t == 'metrix' and (m.get('code') or {}).get('code') == 'unsafe_code':
            sp = next((s for s in m['spans'] if s['is_primary']), m['spans'][0])
            text = ' '.join(x['text'].strip() for x in sp.get('text', []))[:120]
            where = '%s:%d' % (sp['file_name'], sp['line_start'])
            if re.search(r'unsafe\s+impl\b.*\b(Send|Sync)\b', text):
                ctx.ob(False, U, text, 'the crate claims by itself that a type can be moved or shared: %s' % text, where=where)
                n += 1
            else:
                ctx.undecided.append('unsafe code at %s is not analysed' % where)
    ctx.ob(n == 0, U, 'crate', 'unsafe impl in the crate', None)
    ctx.extra['witnesses'] = len(ws)
    ctx.sample('; '.join(w[2] for w in ws[:12]))
