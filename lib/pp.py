"""pretty-print extracted MIR (debug aid)"""
import json, sys

def ty(t):
    k = t['k']
    if k == 'adt':
        return t['p'].split('::')[-1] + ('<%s>' % ','.join(map(ty, t['a'])) if t['a'] else '')
    if k in ('ref', 'ptr'):
        return ('&' if k == 'ref' else '*') + ('mut ' if t['m'] else '') + ty(t['t'])
    if k == 'tuple':
        return '(' + ','.join(map(ty, t['a'])) + ')'
    if k == 'slice':
        return '[' + ty(t['t']) + ']'
    if k == 'array':
        return '[%s;%s]' % (ty(t['t']), t['n'])
    if k == 'closure':
        return 'closure ' + t['p']
    if k == 'fndef':
        return 'fn ' + t['p']
    return t.get('s') or t.get('p')

def place(p):
    s = '_%d' % p['l']
    for e in p['p']:
        if e[0] == '*':
            s = '*' + s
        elif e[0] == 'f':
            s += '.' + e[1]
        elif e[0] == 'd':
            s += ' as ' + e[1]
        else:
            s += '[%s]' % ','.join(map(str, e))
    return s

def op(o):
    if o[0] in ('cp', 'mv'):
        return o[0] + ' ' + place(o[1])
    if o[0] == 'k':
        c = o[1]
        if 'fn' in c:
            return 'fn ' + c['fn']['p']
        for k in ('v', 'float', 'str', 'bytes', 'promoted', 'name', 'disp'):
            if k in c:
                return '%s:%r' % (k, c[k])
    return str(o)

def rv(r):
    k = r[0]
    if k == 'use':
        return op(r[1])
    if k == 'ref':
        return ('&mut ' if r[1] else '&') + place(r[2])
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], op(r[2]))
    if k == 'disc':
        return 'disc(%s)' % place(r[1])
    if k == 'cast':
        return 'cast[%s] %s as %s' % (r[1], op(r[2]), ty(r[3]))
    if k == 'agg':
        a = r[1]
        return 'agg %s %s(%s)' % (a['k'], a.get('v', a.get('p', '')), ', '.join(map(op, a['ops'])))
    return str(r)

def fn(f, out=sys.stdout):
    b = f['body']
    print('fn', f['p'], file=out)
    for i, t in enumerate(b['locals']):
        print('   _%d: %s' % (i, ty(t)), file=out)
    for i, bl in enumerate(b['blocks']):
        if bl['c']:
            continue
        print('  bb%d:' % i, file=out)
        for s in bl['s']:
            if s[0] == '=':
                print('    %s = %s' % (place(s[1]), rv(s[2])), file=out)
        t = bl['t']
        if t[0] == 'call':
            c = t[1]
            print('    %s = call %s [%s %s](%s) -> %s' % (place(t[3]), c.get('p', c), c.get('rk'), c.get('r'), ', '.join(map(op, t[2])), t[4]), file=out)
        elif t[0] == 'switch':
            print('    switch %s %s else %s' % (op(t[1]), t[2], t[3]), file=out)
        elif t[0] == 'drop':
            print('    drop %s -> %s' % (place(t[1]), t[2]), file=out)
        elif t[0] == 'assert':
            print('    assert %s == %s %s -> %s' % (op(t[1]), t[2], t[3], t[4]), file=out)
        else:
            print('    ', t, file=out)

if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for f in d['fns']:
        if any(x in f['p'] for x in sys.argv[2:]):
            fn(f)
        elif len(sys.argv) == 2:
            print(f['p'], f['kind'], len(f['body']['blocks']))
