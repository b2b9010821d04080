"""Hash-consed value terms, canonical atoms and facts (the abstract domain)."""
import math

INF = float('inf')


class N:
    __slots__ = ('op', 'a', 'id', 'hasref', 'haslv', '_s')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op, a)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = len(_tab)
        n._s = None
        n.hasref = op == 'ref' or _any(a, 'hasref')
        n.haslv = op == 'lv' or _any(a, 'haslv')
        _tab[key] = n
    return n


def _any(a, attr):
    for x in a:
        if isinstance(x, N):
            if getattr(x, attr):
                return True
        elif isinstance(x, (tuple, frozenset)):
            if _any(x, attr):
                return True
    return False


def K(kind, v):
    return mk('k', kind, v)


def elem_of(coll):
    """the element of an iteration over coll (whatever its direction)"""
    while coll.op == 'app' and coll.a[0] == 'rev':
        coll = coll.a[1]
    return mk('elem', coll)


def kint(v):
    return mk('k', 'int', v)


TRUE = mk('k', 'bool', True)
FALSE = mk('k', 'bool', False)
UNIT = mk('k', 'unit', '()')
UNINIT = mk('k', 'uninit', '')


def kbool(b):
    return TRUE if b else FALSE


def kstr(s):
    return mk('k', 'str', s)


def isint(n):
    return n.op == 'k' and n.a[0] == 'int'


def agg(ty, variant, fields):
    return mk('agg', ty, variant, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v):
    return agg(OPT, 'Some', (('0', v),))


NONE = agg(OPT, 'None', ())


def ok(v):
    return agg(RES, 'Ok', (('0', v),))


def err(v):
    return agg(RES, 'Err', (('0', v),))


def tup(*xs):
    return agg('tuple', None, tuple((str(i), x) for i, x in enumerate(xs)))


def app(name, *args):
    return mk('app', name, *args)


def lst(base, items):
    return mk('list', base, tuple(items))


# ---------------------------------------------------------------- show
def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x, d) for x in n) + ')'
        if isinstance(n, frozenset):
            return '{' + ','.join(sorted(show(x, d) for x in n)) + '}'
        return str(n)
    if n._s is not None:
        return n._s
    if d > 40:
        return '…'
    op, a = n.op, n.a
    if op == 'k':
        s = repr(a[1]) if a[0] in ('str',) else str(a[1])
    elif op == 'in':
        s = a[0]
    elif op == 'f':
        k = a[1]
        s = show(a[0], d + 1) + ('.' + k if isinstance(k, str) else '[%s]' % show(k[1], d + 1))
    elif op == 'agg':
        nm = (a[0] or '').split('::')[-1]
        if a[1]:
            nm += '::' + a[1]
        if nm == 'tuple':
            nm = ''
        s = nm + ('(' + ', '.join('%s' % show(v, d + 1) if k.isdigit() else '%s: %s' % (k, show(v, d + 1)) for k, v in a[2]) + ')' if a[2] or not nm else '')
    elif op == 'upd':
        s = show(a[0], d + 1) + '{' + ', '.join('%s:=%s' % (show(k, d + 1), show(v, d + 1)) for k, v in a[1]) + '}'
    elif op == 'ref':
        s = '&' + show(a[0], d + 1) + ''.join('.' + (p if isinstance(p, str) else '[%s]' % show(p[1], d + 1)) for p in a[1])
    elif op == 'app':
        s = a[0] + '(' + ', '.join(show(x, d + 1) for x in a[1:]) + ')'
    elif op in ('call', 'post'):
        s = '%s%s#%s(%s)' % ('' if op == 'call' else 'after:', a[0], a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    elif op == 'lin':
        s = '(' + ' + '.join(('' if c == 1 else '%s*' % c) + show(t, d + 1) for t, c in a[0]) + (' + %s' % a[1] if a[1] else '') + ')'
    elif op == 'test':
        s = show(a[0], d + 1) + '∈' + showset(a[1])
    elif op == 'list':
        s = '[' + (show(a[0], d + 1) + '.. ' if a[0] is not None else '') + ', '.join(show(x, d + 1) for x in a[1]) + ']'
    elif op == 'elem':
        s = 'each(%s)' % show(a[0], d + 1)
    elif op == 'str':
        s = 'f"' + ''.join(x if isinstance(x, str) else '{%s}' % show(x, d + 1) for x in a[0]) + '"'
    else:
        s = op + '(' + ', '.join(show(x, d + 1) for x in a) + ')'
    if len(s) > 4000:
        s = s[:4000] + '…'
    n._s = s
    return s


def showset(s):
    if isinstance(s, frozenset):
        return '{' + ','.join(sorted(map(str, s))) + '}'
    return ''.join('[%s,%s]' % p for p in s)


# ---------------------------------------------------------------- linear arithmetic
def lin_of(n):
    """-> (dict term->coef, const)"""
    if n.op == 'lin':
        return dict(n.a[0]), n.a[1]
    if isint(n):
        return {}, n.a[1]
    return {n: 1}, 0


def mk_lin(d, c):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return kint(c)
    if len(d) > 1:
        # c * (x / c) + x % c is x
        for t in list(d):
            if t.op == 'app' and t.a[0] == 'rem' and isint(t.a[2]) and t in d:
                q = app('div', t.a[1], t.a[2])
                if q in d and d[q] == d[t] * t.a[2].a[1]:
                    k = d.pop(t)
                    del d[q]
                    e, f = lin_of(t.a[1])
                    for u, j in e.items():
                        d[u] = d.get(u, 0) + j * k
                    return mk_lin(d, c + f * k)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', tuple(sorted(d.items(), key=lambda x: x[0].id)), c)


def add(a, b, s=1):
    d, c = lin_of(a)
    d = dict(d)
    e, f = lin_of(b)
    for t, k in e.items():
        d[t] = d.get(t, 0) + s * k
    return mk_lin(d, c + s * f)


def scale(a, k):
    d, c = lin_of(a)
    return mk_lin({t: x * k for t, x in d.items()}, c * k)


def mul(a, b):
    if isint(a):
        return scale(b, a.a[1])
    if isint(b):
        return scale(a, b.a[1])
    x, y = sorted((a, b), key=lambda n: n.id)
    return app('mul', x, y)


def idiv(a, b):
    if isint(b) and b.a[1] != 0:
        k = b.a[1]
        d, c = lin_of(a)
        if all(x % k == 0 for x in d.values()) and c % k == 0:
            return mk_lin({t: x // k for t, x in d.items()}, c // k)
        if a.op == 'app' and a.a[0] == 'div' and isint(a.a[2]):
            return idiv(a.a[1], kint(a.a[2].a[1] * k))
        if not d:
            return kint(int(c / k) if abs(c) < 2 ** 50 else (abs(c) // abs(k)) * (1 if (c < 0) == (k < 0) else -1))
        # common factor
        g = math.gcd(k, c, *d.values())
        if g > 1:
            return idiv(mk_lin({t: x // g for t, x in d.items()}, c // g), kint(k // g))
    return app('div', a, b)


def irem(a, b):
    if isint(a) and isint(b) and b.a[1] > 0 and a.a[1] >= 0:
        return kint(a.a[1] % b.a[1])
    return app('rem', a, b)


unsigned = set()


def mark_unsigned(n):
    unsigned.add(n)


def is_unsigned(n):
    return n in unsigned or (n.op == 'app' and n.a[0] in ('len',)) or (n.op == 'app' and n.a[0] in ('div', 'rem') and is_unsigned(n.a[1]))


# ---------------------------------------------------------------- atoms
# atom nodes:   ('disc', value, universe)   allowed: frozenset of variant names
#               ('int', linterm)            allowed: tuple of intervals
#               ('bool', value)             allowed: frozenset of bools
#               ('ford', a, b)              allowed: frozenset of lt/eq/gt/un
#               ('eq', a, b)                allowed: frozenset of bools
#               ('exists', coll, key)       allowed: frozenset of bools
BB = frozenset((True, False))
FO = frozenset(('lt', 'eq', 'gt', 'un'))


def universe(atom):
    if atom.op == 'disc':
        return atom.a[1]
    if atom.op == 'int':
        t = atom.a[0]
        d, c = lin_of(t)
        if all(k > 0 and is_unsigned(x) for x, k in d.items()):
            return ((c, INF),)
        return ((-INF, INF),)
    if atom.op == 'ford':
        return FO
    return BB


def inter(a, b):
    if isinstance(a, frozenset):
        return a & b
    out = []
    for (l, h) in a:
        for (m, k) in b:
            x, y = max(l, m), min(h, k)
            if x <= y:
                out.append((x, y))
    return norm_iv(out)


def union(a, b):
    if isinstance(a, frozenset):
        return a | b
    return norm_iv(list(a) + list(b))


def norm_iv(v):
    v = sorted(v)
    out = []
    for l, h in v:
        if out and l <= out[-1][1] + 1:
            if h > out[-1][1]:
                out[-1] = (out[-1][0], h)
        else:
            out.append((l, h))
    return tuple(out)


def complement(atom, s):
    if isinstance(s, frozenset):
        return universe(atom) - s
    out = []
    lo = -INF
    for l, h in s:
        if l > lo:
            out.append((lo, l - 1))
        lo = h + 1
    if lo < INF:
        out.append((lo, INF))
    return inter(norm_iv([p for p in out if p[0] <= p[1]]), universe(atom))


def test(atom, s):
    """canonical boolean term"""
    u = universe(atom)
    s = inter(s, u)
    if not s:
        return FALSE
    if s == u:
        return TRUE
    if atom.op == 'bool' and s == frozenset((True,)):
        return atom.a[0]
    return mk('test', atom, s)


def as_test(b):
    """boolean term -> (atom, allowed-for-true)"""
    if b.op == 'test':
        return b.a
    return mk('bool', b), frozenset((True,))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    at, s = as_test(b)
    return test(at, complement(at, s))


def cmp_int(op, a, b):
    d = add(a, b, -1)
    dd, c = lin_of(d)
    if not dd:
        return kbool({'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op])
    iv = {'lt': ((-INF, -1),), 'le': ((-INF, 0),), 'gt': ((1, INF),), 'ge': ((0, INF),), 'eq': ((0, 0),),
          'ne': ((-INF, -1), (1, INF))}[op]
    first = min(dd.items(), key=lambda x: x[0].id)
    if first[1] < 0:
        dd = {t: -k for t, k in dd.items()}
        c = -c
        iv = tuple(sorted((-h, -l) for l, h in iv))
    g = math.gcd(*[abs(int(k)) for k in dd.values()]) if all(isinstance(k, int) for k in dd.values()) else 1
    iv = [(l - c, h - c) for l, h in iv]
    if g > 1:
        dd = {t: k // g for t, k in dd.items()}
        iv = [(l if l == -INF else -((-l) // g), h if h == INF else h // g) for l, h in iv]
        iv = [(l, h) for l, h in iv if l <= h]
    if len(dd) == 1 and list(dd.values()) == [1]:
        t = next(iter(dd))
        rest = counts(t)
        if rest is not None:
            # how many elements of a collection there are of a kind, compared with none
            some_, none_ = any(h >= 1 for l, h in iv), any(l <= 0 <= h for l, h in iv)
            if some_ == any(l <= 1 and h == INF for l, h in iv):
                if some_ and none_:
                    return TRUE
                if not some_ and not none_:
                    return FALSE
                return test(mk('exists', t.a[0], rest), frozenset((some_,)))
    at = mk('int', mk_lin(dd, 0))
    return test(at, norm_iv(iv))


def counts(t):
    """the term is the number of elements of a collection that are of a kind: the facts of those that are not, else None"""
    if t.op != 'rec' or not isinstance(t.a[0], N) or t.a[1] is not kint(0):
        return None
    rest = set()
    one = False
    for facts, x in t.a[2]:
        if x.op == 'me':
            rest.add(facts)
            continue
        d, c = lin_of(x)
        if c != 1 or len(d) != 1 or next(iter(d)).op != 'me' or list(d.values()) != [1]:
            return None
        one = True
    if not one or not rest or frozenset() in rest:
        return None
    return frozenset(rest)


def cmp_float(op, a, b):
    if a.op == 'k' and b.op == 'k' and a.a[0] == 'float' and b.a[0] == 'float':
        x, y = float(a.a[1]), float(b.a[1])
        return kbool({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op])
    s = {'lt': {'lt'}, 'le': {'lt', 'eq'}, 'gt': {'gt'}, 'ge': {'gt', 'eq'}, 'eq': {'eq'},
         'ne': {'lt', 'gt', 'un'}}[op]
    if a.id > b.id:
        a, b = b, a
        s = {{'lt': 'gt', 'gt': 'lt'}.get(x, x) for x in s}
    return test(mk('ford', a, b), frozenset(s))


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'k' and b.op == 'k':
        return kbool(a.a == b.a)
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] is not None and b.a[1] is not None:
        if a.a[1] != b.a[1]:
            return FALSE
    p, q = strparts(a), strparts(b)
    if p and q and (p is not q):
        x, y = p[0], q[0]
        if isinstance(x, str) and isinstance(y, str) and not x.startswith(y) and not y.startswith(x):
            return FALSE
        x, y = p[-1], q[-1]
        if isinstance(x, str) and isinstance(y, str) and not x.endswith(y) and not y.endswith(x):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return test(mk('eq', a, b), frozenset((True,)))


def strparts(n):
    if n.op == 'k' and n.a[0] == 'str':
        return (n.a[1],)
    if n.op == 'str':
        return n.a[0]
    return None


def walk(n, f, seen=None):
    """call f on every node reachable"""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            f(x)
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def mentions(n, pred):
    hit = []

    def g(x):
        if pred(x):
            hit.append(x)
    walk(n, g)
    return bool(hit)


def rebuild(n, f, memo=None):
    """bottom-up substitution: f(node)->node or None"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, N):
            if x in memo:
                return memo[x]
            r = f(x)
            if r is None:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else remake(x.op, a)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(n)


def remake(op, a):
    if op == 'lin':
        d = {}
        c = a[1]
        for t, k in a[0]:
            e, f = lin_of(t)
            c += f * k
            for t2, k2 in e.items():
                d[t2] = d.get(t2, 0) + k * k2
        return mk_lin(d, c)
    if op == 'f':
        return proj_get(a[0], a[1])
    if op == 'int' and not isinstance(a[0], N):
        return mk(op, *a)
    return mk(op, *a)


def ident(v):
    """the collection v started as (same length: only element changes in between)"""
    while True:
        if v.op == 'lvo':
            v = v.a[0]
        elif v.op == 'lv':
            v = v.a[2]
        else:
            return v


def proj_get(v, key):
    if v.op == 'agg':
        k = key
        if isinstance(k, str):
            if '.' in k:
                var, k = k.split('.', 1)
            for kk, x in v.a[2]:
                if kk == k:
                    return x
        return mk('f', v, key)
    if v.op == 'upd':
        for kk, x in v.a[1]:
            if kk == key:
                return x
        if isinstance(key, tuple) and any(isinstance(kk, tuple) and not (isint(kk[1]) and isint(key[1])) for kk, x in v.a[1]):
            return mk('f', v, key)
        return proj_get(v.a[0], key)
    if v.op == 'clos' and isinstance(key, str) and key.isdigit() and int(key) < len(v.a[1]):
        return v.a[1][int(key)]
    if v.op == 'list' and isinstance(key, tuple):
        if v.a[0] is None and isint(key[1]) and 0 <= key[1].a[1] < len(v.a[1]):
            return v.a[1][key[1].a[1]]
    if isinstance(key, tuple):
        i = key[1]
        if i.op == 'elem' and i.a[0].op == 'app' and i.a[0].a[0] == 'range' and isint(i.a[0].a[1]) and \
                i.a[0].a[1].a[1] == 0 and i.a[0].a[2].op == 'app' and i.a[0].a[2].a[0] == 'len' and \
                ident(i.a[0].a[2].a[1]) is ident(v):
            return mk('elem', v)
    return mk('f', v, key)


def proj_set(v, key, x):
    if v.op == 'agg' and isinstance(key, str):
        k = key.split('.', 1)[1] if '.' in key else key
        fs = list(v.a[2])
        for i, (kk, _) in enumerate(fs):
            if kk == k:
                fs[i] = (kk, x)
                return mk('agg', v.a[0], v.a[1], tuple(fs))
        fs.append((k, x))
        return mk('agg', v.a[0], v.a[1], tuple(fs))
    if v.op == 'list' and isinstance(key, tuple) and v.a[0] is None and isint(key[1]) and 0 <= key[1].a[1] < len(v.a[1]):
        it = list(v.a[1])
        it[key[1].a[1]] = x
        return lst(None, it)
    if v.op == 'upd':
        fs = [(kk, y) for kk, y in v.a[1] if kk != key]
        base = v.a[0]
    else:
        fs = []
        base = v
    if x is not proj_get(base, key):
        fs.append((key, x))
    if not fs:
        return base
    fs.sort(key=lambda p: (isinstance(p[0], tuple), p[0] if isinstance(p[0], str) else p[0][1].id))
    return mk('upd', base, tuple(fs))
