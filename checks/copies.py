"""Copies and comparisons: what Clone and PartialEq of the crate's own types do."""
from spec import *

CLONE, EQ = 'core::clone::Clone', 'core::cmp::PartialEq'
SHARED = ('Arc', 'Sender', 'Receiver', 'Rc')
HANDLES = ('TelemetryTransmitter', 'TelemetryDriver', 'AttachedMount')


def impls(ctx, trait):
    for p, f in sorted(ctx.db.fns.items()):
        t = f.get('impl_self')
        if f['kind'] != 'Closure' and f.get('impl_trait') == trait and t and t['k'] == 'adt' and t['p'] in ctx.db.adts:
            yield f, t


def fields(ctx, adt, variant):
    for v in ctx.db.adts[adt]['vs']:
        if v['n'] == variant or not ctx.db.adts[adt].get('enum'):
            return [(n, t) for n, t, *_ in v['f']]
    return []


def copied(ctx, o, v, place, t, bad):
    """whether the value is a copy of what is in a place; what is not goes into bad"""
    if v is place or norm(v) is place:
        return
    t = strip(t)
    if t and t['k'] == 'adt' and tyname(t['p']) in SHARED:
        bad.append('%s is not the one of the original but %s' % (show(place), show(v)[:100]))
        return
    if v.op == 'agg' and t and t['k'] == 'adt' and v.a[0] == t['p']:
        enum = t['p'] in ctx.db.adts and ctx.db.adts[t['p']].get('enum') or t['p'] == OPT
        if enum:
            s = variant_of(o, place, t['p'], ctx.db) if t['p'] != OPT else {True: {'Some'}, False: {'None'}, None: {'Some', 'None'}}[is_some(o, place)]
            if set(s) != {v.a[1]}:
                bad.append('%s becomes %s' % (show(place), v.a[1]))
                return
        its = dict((n, ft) for n, ft in (fields(ctx, t['p'], v.a[1]) if t['p'] in ctx.db.adts else [('0', (t.get('a') or [None])[0])]))
        for n, x in v.a[2]:
            copied(ctx, o, x, F(place, '%s.%s' % (v.a[1], n) if enum else n), its.get(n), bad)
        return
    if v in (TRUE, FALSE) and truth(o, place) is (v is TRUE):
        return
    if v.op == 'rec' or v.op == 'list' and v.a[0] is not None and v.a[0].op == 'rec':
        bad.append(None)                                              # a list copied by hand
        return
    bad.append('%s becomes %s' % (show(place), show(v)[:100]))


def strip(t):
    while t and t['k'] == 'ref':
        t = t['t']
    return t


def same(ctx, o, a, b, t):
    """whether a path has found two places to hold the same: True, False or None"""
    t = strip(t)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        r = truth(o, cmp_eq(x, y))
        if r is not None:
            return r
    for at, s in o.facts.items():
        if at.op == 'int':
            d, c = lin_of(at.a[0])
            if d in ({a: 1, b: -1}, {a: -1, b: 1}) and c == 0:
                if s == ((0, 0),):
                    return True
                if not any(l <= 0 <= h for l, h in s):
                    return False
    if t and (t['k'] == 'array' or t['k'] == 'slice' or t['k'] == 'adt' and tyname(t['p']) in ('Vec', 'VecDeque', 'Box')):
        r = same_lists(ctx, o, a, b, t.get('t') or (t.get('a') or [None])[0])
        if r is not None:
            return r
    fo = [s for at, s in o.facts.items() if at.op == 'ford' and set(at.a) == {a, b}]
    if fo:
        return True if fo[0] == frozenset(('eq',)) else False if 'eq' not in fo[0] else None
    ta, tb = truth(o, a), truth(o, b)
    if ta is not None and tb is not None:
        return ta == tb
    if t and t['k'] == 'adt' and (t['p'] == OPT or ctx.db.adts.get(t['p'], {}).get('enum')):
        return same_variants(ctx, o, a, b, t)
    if t and t['k'] == 'adt' and t['p'] in ctx.db.adts:
        return all3([same(ctx, o, F(a, n), F(b, n), ft) for n, ft in fields(ctx, t['p'], None)])
    return None


def knowing(o, facts):
    """the same outcome, knowing only some facts"""
    st = o.st.copy()
    st.facts = dict(facts)
    return type(o)(o.eng, st, o.ret)


def same_lists(ctx, o, a, b, t):
    """whether all elements of two lists have been found the same, one by one"""
    equal = False
    for at, s in o.facts.items():
        if at.op == 'int':
            d, c = lin_of(at.a[0])
            la, lb = lin_of(length(a))[0], lin_of(length(b))[0]
            if c == 0 and len(d) == 2 and set(d) == set(la) | set(lb):
                if s == ((0, 0),):
                    equal = True
                elif not any(l <= 0 <= h for l, h in s):
                    return False
    pairs = [(x, y) for x in element(o, a, b) for y in element(o, b, a)]
    if any(same(ctx, o, x, y, t) is False for x, y in pairs):
        return False
    for at, s in o.facts.items():
        if equal and at.op == 'exists' and s == frozenset((False,)) and at.a[0] in (a, b, app('zip', a, b), app('zip', b, a)):
            fams = [knowing(o, fam) for fam in at.a[1]]
            if fams and all(any(same(ctx, k, x, y, t) is True for x in element(k, a, b) for y in element(k, b, a)) for k in fams):
                return True
    return None


def length(a):
    return app('len', a)


def element(o, a, other):
    """the current element of a list, as a path refers to it"""
    out = {mk('elem', a)}

    def see(n):
        if n.op == 'f' and n.a[0] is a and type(n.a[1]) is tuple and n.a[1][0] == '[]':
            i = n.a[1][1]
            if i.op == 'elem' and i.a[0].op == 'app' and i.a[0].a[:1] == ('range',) and show(i.a[0]) in ('range(0, len(%s))' % show(a), 'range(0, len(%s))' % show(other)):
                out.add(n)
        return False
    for at in o.facts:
        for x in at.a:
            if hasattr(x, 'op'):
                mentions(x, see)
    return out


def same_variants(ctx, o, a, b, t):
    if t['p'] == OPT:
        va, vb = [{True: {'Some'}, False: {'None'}, None: {'Some', 'None'}}[is_some(o, x)] for x in (a, b)]
    else:
        va, vb = variant_of(o, a, t['p'], ctx.db), variant_of(o, b, t['p'], ctx.db)
    d = alike(o, a, b)
    rs = set()
    for v in va:
        its = fields(ctx, t['p'], v) if t['p'] in ctx.db.adts else [('0', (t.get('a') or [None])[0])] if v == 'Some' else []
        for w in vb:
            if d is None or d == (v == w):
                rs.add(False if v != w else all3([same(ctx, o, F(a, '%s.%s' % (v, n)), F(b, '%s.%s' % (v, n)), ft) for n, ft in its]))
    if not rs:
        return 'never'
    return rs.pop() if len(rs) == 1 else None


def alike(o, a, b):
    """what a path knows of two values being of the same kind"""
    def of(n, x):
        return n.op in ('app', 'ret', 'call', 'fresh') and 'discriminant' in show(n) and mentions(n, lambda m: m is x)
    for at, s in o.facts.items():
        if at.op == 'eq' and len(s) == 1 and (of(at.a[0], a) and of(at.a[1], b) or of(at.a[0], b) and of(at.a[1], a)):
            return True in s
    return truth(o, cmp_eq(app('disc', a), app('disc', b)))


def all3(xs):
    if 'never' in xs:
        return 'never'
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def p33(ctx):
    ctx.rule('copy', 'a copy has in every part what the original has')
    ctx.rule('handle', 'a copied handle works on the same queue, and what is counted by sharing is shared')
    ctx.rule('equal', 'two values are equal exactly when they are of the same kind and all their parts are equal')
    nc = ne = 0
    for f, t in impls(ctx, CLONE):
        if f.get('name') == 'clone_from':
            for o in ctx.run(f) or ():
                bad = []
                fin = o.final(SELF)
                if fin.op == 'upd' and not ctx.db.adts[t['p']].get('enum'):
                    for n, ft in fields(ctx, t['p'], None):
                        copied(ctx, o, F(fin, n), F(arg(1), n), ft, bad)
                else:
                    copied(ctx, o, fin, arg(1), t, bad)
                ctx.ob(not bad, 'copy', f['p'], 'what is made a copy of another %s: %s' % (tyname(t['p']), '; '.join(b or 'is copied by hand' for b in bad)[:400]), f, detail=o.show())
            continue
        ty = tyname(t['p'])
        nc += 1
        for o in ctx.run(f) or ():
            bad = []
            copied(ctx, o, o.ret, SELF, t, bad)
            if None in bad:
                ctx.undecided.append('%s copies a list in a way that is not known' % f['p'])
                bad = [b for b in bad if b]
            ctx.ob(not bad, 'handle' if ty in HANDLES else 'copy', f['p'], 'a copy of %s: %s' % (ty, '; '.join(bad)[:400]), f, detail=o.show())
            se = [e.a[0] for e, _ in events(o.ev) if not e.a[0].startswith(('atomic', 'lock', 'drop'))]
            ctx.ob(o.final(SELF) is SELF, 'copy', f['p'] + '|original', 'copying a %s changes it' % ty, f, detail=o.show())
            ctx.ob(not se, 'copy', f['p'] + '|effect', 'copying a %s does something else: %s' % (ty, ', '.join(se)[:200]), f, detail=o.show())
    for f, t in impls(ctx, EQ):
        ty = tyname(t['p'])
        neg_ = f.get('name') == 'ne'
        ne += 1
        seen = set()
        for o in ctx.run(f) or ():
            r = truth(o, o.ret) if o.ret not in (TRUE, FALSE) else o.ret is TRUE
            if r is None:
                ctx.undecided.append('%s: the result of a comparison is not understood: %s' % (f['p'], show(o.ret)[:100]))
                continue
            r = r != neg_
            seen.add(r)
            full = {'k': 'adt', 'p': t['p'], 'a': t.get('a')}
            s = same(ctx, o, SELF, arg(1), full) if not ctx.db.adts[t['p']].get('enum') else same_variants(ctx, o, SELF, arg(1), full)
            if s == 'never':
                continue                                              # no two values take this path
            if r:
                ctx.ob(s is True, 'equal', f['p'] + '|yes', '%s: two values are found equal although not all their parts have been (%s)' % (ty, fmt_facts(o)[:300]), f, detail=o.show())
            else:
                ctx.ob(s is False, 'equal', f['p'] + '|no', '%s: two values are found different although none of their parts has been (%s)' % (ty, fmt_facts(o)[:300]), f, detail=o.show())
        ctx.ob(seen == {True, False}, 'equal', f['p'] + '|both', '%s: values are always found %s' % (ty, 'equal' if True in seen else 'different'), f)
    ctx.ob(nc >= 12, 'copy', 'found', 'copies are missing: only %d types can be copied' % nc)
    ctx.ob(ne >= 5, 'equal', 'found', 'comparisons are missing: only %d types can be compared' % ne)
    ctx.extra['copied'] = nc
    ctx.extra['compared'] = ne
