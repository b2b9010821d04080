"""P18: values keep their meaning through every conversion."""
from instr import *
from processing import lin_fact

SIGNED = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
UNSIGNED = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def p18(ctx):
    ctx.rule('observed', 'whatever can be observed becomes a value of the same kind and size')
    ctx.rule('item', 'whatever can be shown becomes an item of the same kind and value')
    ctx.rule('shown', 'an observed value becomes an item of the same kind and value, or none')
    ctx.rule('to number', 'a value is converted to a number exactly when that number (rounded, for floats) can be represented')
    ctx.rule('delta', 'exactly changes are deltas')
    ctx.rule('unit', 'a duration is the same (rounded down) in every unit')
    ctx.rule('split', 'an observation becomes the update, label and time it consists of')
    froms(ctx)
    shown_as(ctx)
    numbers(ctx)
    units(ctx)
    split(ctx)


def source(t):
    """(kind of source, bits) of a type"""
    while t.get('k') == 'ref':
        t = t['t']
    if t.get('k') == 'prim':
        s = t.get('s') or t.get('n')
        if s in SIGNED:
            return 'signed', SIGNED[s]
        if s in UNSIGNED:
            return 'unsigned', UNSIGNED[s]
        return {'f32': 'float', 'f64': 'float', 'bool': 'bool', 'str': 'text', 'char': 'text'}.get(s), 0
    if t.get('k') == 'adt':
        return tyname(t['p']), 0
    if t.get('k') == 'tuple':
        return tuple(source(x)[0] for x in t['a']), 0
    return None, 0


def plainly(t, src):
    """t without the casts that keep every value of the source type"""
    kind, bits = src
    while t.op == 'app' and str(t.a[0]).startswith('cast:'):
        to = t.a[0][5:]
        if to in SIGNED and (SIGNED[to] >= bits if kind == 'signed' else SIGNED[to] > bits) or to in UNSIGNED and kind != 'signed' and UNSIGNED[to] >= bits:
            t = t.a[1]
        else:
            break
    return t


def same(o, got, want, src=('unsigned', 64)):
    if got is want:
        return True
    g = plainly(got, src)
    if g is want:
        return True
    k = known(o.facts, want)
    if k is got or k is g:
        return True
    b = truth(o, want) if want.op not in ('agg', 'k') else None
    return b is not None and truth(o, got) is b or same_int(g, want)


def parts(v, variant):
    """fields of the enum value, None when it is another variant"""
    if v.op != 'agg' or v.a[1] != variant:
        return None
    return [x for _, x in v.a[2]]


def whole(t):
    """k * (x / (k m)) + (x mod (k m)) / m is x / m"""
    d, c = lin_of(uncast(t))
    if c == 0 and len(d) == 2:
        for a, k in d.items():
            b = next(y for y in d if y is not a)
            if a.op == 'app' and a.a[0] == 'div' and isint(a.a[2]) and d[b] == 1 and b.op == 'app' and b.a[0] == 'div' and isint(b.a[2]):
                r = uncast(b.a[1])
                if r.op == 'app' and r.a[0] == 'rem' and r.a[1] is a.a[1] and r.a[2] is a.a[2] and k * b.a[2].a[1] == a.a[2].a[1]:
                    return app('div', a.a[1], b.a[2])
    return uncast(t)


def froms(ctx):
    n = 0
    for impl, args, its in ctx.db.impls.get('core::convert::From', ()):
        if impl.get('k') != 'adt' or len(args) != 2 or 'from' not in its:
            continue
        to = tyname(impl['p'])
        fn = ctx.db.fns.get(its['from'])
        src = source(args[1])
        if to not in ('ObservedValue', 'ItemKind') or fn is None or src[0] is None:
            continue
        n += 1
        x = IN('given')
        if src[0] == 'unsigned' or src[0] == 'Duration':
            mark_unsigned(x)
        if isinstance(src[0], tuple):
            x = tup(*[IN('given%d' % i) for i in range(len(src[0]))])
            mark_unsigned(IN('given0'))
        if src[0] in ('IncrementBy', 'DecrementBy'):
            mark_unsigned(F(x, '0'))
        for o in ctx.run(fn, args=[x]) or []:
            (observed_from if to == 'ObservedValue' else item_from)(ctx, fn, o, src, x)
    ctx.ob(n > 0, 'observed', 'conversions', 'nothing can be converted into a value')


def observed_from(ctx, fn, o, src, x):
    kind = src[0]
    v = o.ret
    direct = {'signed': 'SignedInteger', 'unsigned': 'UnsignedInteger', 'float': 'Float', 'bool': 'Bool'}
    delta = {'Increment': kint(1), 'Decrement': kint(-1), 'IncrementBy': F(x, '0'), 'DecrementBy': mk_lin({F(x, '0'): -1}, 0), 'ChangeBy': F(x, '0')}
    if kind in direct:
        p = parts(v, direct[kind])
        good = p is not None and same(o, p[0], x, src)
    elif kind in delta:
        p = parts(v, 'ChangedBy')
        good = p is not None and (same(o, p[0], delta[kind], ('unsigned', 32) if kind[-2:] == 'By' and kind != 'ChangeBy' else ('signed', 64)) or stripped(p[0]) is delta[kind])
    elif kind == 'Duration':
        p = parts(v, 'Duration')
        good = p is not None and whole(p[0]) is x and p[1].op == 'agg' and p[1].a[1] == 'Nanoseconds'
    elif kind == ('unsigned', 'TimeUnit'):
        p = parts(v, 'Duration')
        good = p is not None and same(o, p[0], IN('given0')) and same_unit(o, p[1], IN('given1'))
    elif kind == ('Duration', 'TimeUnit'):
        p = parts(v, 'Duration')
        u = unit_of(o, IN('given1'))
        good = p is not None and u is not None and same_unit(o, p[1], IN('given1')) and whole(p[0]) is in_unit(IN('given0'), 'Nanoseconds', u)
    else:
        return                                             # a new kind of source
    ctx.ob(good, 'observed', '%s|%s' % (fn['p'], fmt_facts(o)[:80]), '%s becomes %s' % (kind, show(v)[:160]), fn, detail=fmt_facts(o))


def stripped(t):
    """without widening of unsigned parts"""
    return rebuild(t, lambda x: stripped(x.a[1]) if x.op == 'app' and x.a[0] in ('cast:i64', 'cast:u64', 'cast:i128') else None)


def same_unit(o, got, want):
    if got is want:
        return True
    u = unit_of(o, want)
    return u is not None and got.op == 'agg' and got.a[1] == u


def item_from(ctx, fn, o, src, x):
    want = {'signed': 'Int', 'unsigned': 'UInt', 'float': 'Float', 'bool': 'Boolean', 'text': 'Text', 'String': 'Text', 'Snapshot': 'Snapshot'}.get(src[0])
    if want is None:
        return
    p = parts(o.ret, want)
    good = p is not None and (same(o, p[0], x, src) or want in ('Text', 'Snapshot') and norm(p[0]) is x)
    ctx.ob(good, 'item', fn['p'], '%s becomes the item %s' % (src[0], show(o.ret)[:160]), fn, detail=fmt_facts(o))


SHOWN = {'SignedInteger': 'Int', 'UnsignedInteger': 'UInt', 'Float': 'Float', 'Bool': 'Boolean'}


def shown_as(ctx):
    fns = [ctx.inh('ObservedValue', 'to_item_kind', opt=True)]
    for impl, args, its in ctx.db.impls.get('core::convert::From', ()):
        if mentions_name(impl, 'ItemKind') and len(args) == 2 and source(args[1])[0] == 'ObservedValue':
            fns.append(ctx.db.fns.get(its.get('from')))
    for fn in fns:
        if fn is None:
            continue
        for kind, v, x in values(ctx):
            for o in ctx.run(fn, args=[v]) or []:
                r = o.ret
                if r.op == 'agg' and r.a[1] in ('Some', 'None'):
                    r = r.a[2][0][1] if r.a[1] == 'Some' else None
                if kind in SHOWN:
                    p = parts(r, SHOWN[kind]) if r is not None else None
                    good = p is not None and same(o, p[0], x)
                else:
                    good = r is None
                ctx.ob(good, 'shown', '%s|%s' % (fn['p'], kind), 'an observed %s becomes the item %s' % (kind, show(o.ret)[:120]), fn, detail=fmt_facts(o))
    for fn, mkv in ((ctx.inh('ObservedValue', 'is_delta', opt=True), lambda v: v), (ctx.trait_fn('Observation', 'ObservationLike', 'is_delta', opt=True), lambda v: obs(ctx, 'ObservedOneValue', value=v))):
        if fn is None:
            continue
        for kind, v, x in values(ctx):
            for o in ctx.run(fn, args=[mkv(v)]) or []:
                ctx.ob(truth(o, o.ret) is (kind == 'ChangedBy'), 'delta', '%s|%s' % (fn['p'], kind), 'whether %s is a delta: %s' % (kind, show(o.ret)), fn)
    fn = ctx.trait_fn('Observation', 'ObservationLike', 'is_delta', opt=True)
    for k in ('Observed', 'ObservedOne') if fn else ():
        for o in ctx.run(fn, args=[obs(ctx, k)]) or []:
            ctx.ob(truth(o, o.ret) is False, 'delta', '%s|%s' % (fn['p'], k), 'whether an observation without a value is a delta: %s' % show(o.ret), fn)


def obs(ctx, variant, **kw):
    fs = {'Observed': ('label', 'count', 'timestamp'), 'ObservedOne': ('label', 'timestamp'), 'ObservedOneValue': ('label', 'value', 'timestamp')}[variant]
    mark_unsigned(IN('count'))
    return agg(ctx.adt('Observation')['p'], variant, [(f, kw.get(f, IN(f))) for f in fs])


def mentions_name(t, name):
    if isinstance(t, dict):
        return t.get('k') == 'adt' and tyname(t['p']) == name or any(mentions_name(x, name) for x in t.values())
    return isinstance(t, list) and any(mentions_name(x, name) for x in t)


def to_u64(kind, x, o):
    if kind == 'UnsignedInteger':
        return x
    if kind == 'SignedInteger':
        r = lin_fact(o.facts, lambda d: d[x] if len(d) == 1 and x in d else None)
        if r is None:
            return '?'
        return x if r[0] >= 0 else None if r[1] < 0 else '?'
    if kind == 'Float':
        got = set()
        for p in float_points([o.facts], x):
            ok = admits(o.facts, {x: p})
            if ok is None:
                return '?'
            if ok:
                got.add(0.0 <= rnd(p) < 2.0 ** 64)
        if len(got) != 1:
            return '?'
        return app('f2i:u64', app('f64::round', x)) if True in got else None
    return None


def to_bool(kind, x, o):
    if kind == 'Bool':
        return x
    if kind in ('SignedInteger', 'UnsignedInteger'):
        v = truth(o, cmp_int('eq', x, kint(0)))
        return '?' if v is None else kbool(not v)
    return None


def numbers(ctx):
    for method, want in (('convert_to_i64', to_i64), ('convert_to_u64', to_u64), ('convert_to_bool', to_bool)):
        fn = ctx.inh('ObservedValue', method, opt=True)
        if fn is None:
            ctx.undecided.append('ObservedValue::%s not found' % method)
            continue
        for kind, v, x in values(ctx):
            for o in ctx.run(fn, args=[v]) or []:
                w = want(kind, x, o)
                site = '%s|%s' % (fn['p'], kind)
                r = o.ret
                got = None if r.op == 'agg' and r.a[1] == 'None' else r.a[2][0][1] if r.op == 'agg' and r.a[1] == 'Some' else '?'
                if w == '?' and isinstance(got, N) and method == 'convert_to_bool' and neg(cmp_int('eq', x, kint(0))) is got:
                    w = got
                if w == '?' or isinstance(got, str):
                    ctx.ob(False, 'to number', site + '|range', '%s gives %s whether or not the value (%s) is in range' % (method, show(r)[:100], kind), fn, detail=fmt_facts(o))
                    continue
                if w is None or got is None:
                    good = w is None and got is None
                else:
                    good = got is w or same_cast(got, w) or same_int(uncast(got), uncast(w)) or known(o.facts, w) is got or truth(o, got) is not None and truth(o, got) is truth(o, w)
                ctx.ob(good, 'to number', site, '%s gives %s for a value (%s)' % (method, show(r)[:100], kind), fn, detail=fmt_facts(o))


def units(ctx):
    fn = next((f for p, f in ctx.db.fns.items() if p.endswith('::duration_to_display_value')), None)
    if fn is None:
        ctx.undecided.append('duration_to_display_value not found (see P13, P14 and P15 for the units of instruments)')
        return
    p = ctx.adt('TimeUnit')['p']
    x = IN('time')
    mark_unsigned(x)
    for have in UNITS:
        for to in UNITS:
            for o in ctx.run(fn, args=[x, agg(p, have, []), agg(p, to, [])]) or []:
                ctx.ob(same_int(whole(o.ret), in_unit(x, have, to)), 'unit', '%s|%s|%s' % (fn['p'], have, to), '%s in %s is %s' % (have, to, show(o.ret)[:80]), fn)


def split(ctx):
    u = {'Observed': ('Observations', ('count', 'timestamp')), 'ObservedOne': ('Observation', ('timestamp',)), 'ObservedOneValue': ('ObservationWithValue', ('value', 'timestamp'))}
    for impl, args, its in ctx.db.impls.get('core::convert::From', ()):
        fn = ctx.db.fns.get(its.get('from'))
        if fn is None or len(args) != 2 or source(args[1])[0] != 'Observation' or impl.get('k') != 'adt' or tyname(impl['p']) not in ('LabelAndUpdate', 'BorrowedLabelAndUpdate'):
            continue
        for k, (uk, fs) in u.items():
            for o in ctx.run(fn, args=[obs(ctx, k)]) or []:
                r = o.ret
                p = [x for _, x in r.a[2]] if r.op == 'agg' and len(r.a[2]) == 2 else None
                good = p is not None and p[0] is IN('label') and parts(p[1], uk) is not None and [known(o.facts, x) for x in parts(p[1], uk)] == [known(o.facts, IN(f)) for f in fs]
                ctx.ob(good, 'split', '%s|%s' % (fn['p'], k), 'an observation (%s) becomes %s' % (k, show(r)[:160]), fn)
    for fn, f in [(ctx.inh('Observation', 'label', opt=True), 'label'), (ctx.inh('Observation', 'timestamp', opt=True), 'timestamp'), (ctx.trait_fn('Observation', 'ObservationLike', 'timestamp', opt=True), 'timestamp')]:
        for k in u if fn is not None else ():
            for o in ctx.run(fn, args=[obs(ctx, k)]) or []:
                ctx.ob(o.ret is IN(f), 'split', '%s|%s' % (fn['p'], k), 'the %s of an observation (%s) is %s' % (f, k, show(o.ret)[:80]), fn)
    fn = ctx.inh('Update', 'observed_value', opt=True)
    for kind, up, x in updates(ctx) if fn is not None else ():
        for o in ctx.run(fn, args=[up]) or []:
            r = o.ret
            want = None if kind in ('one', 'many') else up.a[2][0][1]
            got = r.a[2][0][1] if r.op == 'agg' and r.a[1] == 'Some' else None if r.op == 'agg' and r.a[1] == 'None' else r
            ctx.ob(got is want, 'split', '%s|%s' % (fn['p'], kind), 'the value of an update (%s) is %s' % (kind, show(r)[:80]), fn)
