"""P23: finding items in a snapshot, P24: snapshots as JSON."""
from instr import *
from spec import *
from processing import lin_fact, assignments, or3, not3

CALL = 'snapshot::find_item'
SFIND = 'Snapshot::find_with_separator'
SJSON, IJSON = 'Snapshot::to_json_value', 'ItemKind::to_json_value'


def p23(ctx):
    ctx.rule('step', 'each segment of a path leads to the first item of that name, one below a value to that value, an unknown one to nothing')
    ctx.rule('path', 'a path is taken apart at the separator and its empty segments are ignored')
    ctx.rule('relative', 'an item found can be searched like the snapshot it is, a value contains nothing')
    ctx.rule('option', 'exactly what is found is some')
    ctx.rule('duration', 'exactly numbers that are not negative are durations, in the unit asked for')
    step(ctx)
    path(ctx)
    relative(ctx)
    durations(ctx)
    push(ctx)


def push(ctx):
    ctx.rule('push', 'an item pushed is the last one, under its name')
    fn = ctx.inh('Snapshot', 'push', opt=True)
    for o in ctx.run(fn) if fn else []:
        v = F(o.final(SELF), 'items')
        good = v.op == 'list' and v.a[0] is F(SELF, 'items') and len(v.a[1]) == 1
        if good:
            k, x = F(v.a[1][0], '0'), F(v.a[1][0], '1')
            good = k is arg(1) and x in (app('into:ItemKind', arg(2)), arg(2))
        e = mk('elem', F(SELF, 'items'))
        good = good and o.final(e) is e
        ctx.ob(good, 'push', fn['p'], 'after pushing the items are %s' % show(v)[:160], fn)


def seglen(o, s):
    """is the string s empty"""
    r = lin_fact(o.facts, lambda d: d[x] if len(d) == 1 and (x := next(iter(d))).op == 'app' and x.a[0] == 'len' and x.a[1] is s else None)
    if r is None:
        q = o.facts.get(mk('eq', s, kstr(''))) or o.facts.get(mk('eq', kstr(''), s))
        if q is not None and len(q) == 1:
            return True in q
        return None
    return True if r[1] <= 0 else False if r[0] >= 1 else None


def length(o, p):
    """range of the length of the list p"""
    if p.op == 'list' and p.a[0] is None:
        return len(p.a[1]), len(p.a[1])
    r = lin_fact(o.facts, lambda d: d[x] if len(d) == 1 and (x := next(iter(d))).op == 'app' and x.a[0] == 'len' and x.a[1] is p else None)
    return r or (0, INF)


def first_named(o, coll, name):
    """(is there an element of that name, the first one's value) on this path; None: it did not find out"""
    for a, s in o.facts.items():
        if a.op != 'exists' or norm(a.a[0]) is not coll or len(s) != 1:
            continue
        if a.a[0].op == 'app' and a.a[0].a[0] == 'rev':
            return 'rev'
        ass = assignments(a.a[1])
        if ass and all(any(otherwise_named(t, F(mk('elem', coll), '0')) for t in r) for r, _ in ass):
            return 'other'
        want = cmp_eq(F(mk('elem', coll), '0'), name)
        at, sat = as_test(want)
        if ass is None or not all(set(r) <= {at} and ((at in r and r[at] == sat) != covered) for r, covered in ass):
            continue
        return True in s
    return None


def otherwise_named(t, name):
    """does the test look at something made out of the name rather than at the name"""
    hit = []

    def f(x):
        if x.op in ('app', 'call') and str(x.a[0]).startswith('str::') and x.a[0] not in ('str::as_bytes', 'str::bytes', 'str::chars', 'str::cmp') \
                and any(isinstance(y, N) and mentions(y, lambda z: z is name) for y in x.a[1:]):
            hit.append(x)
    walk(t, f)
    return bool(hit)


def found(r):
    """('found', item) ('none',) ('call', item, path) or None"""
    if r.op not in ('agg', 'call'):
        r = norm(r)
    if r.op == 'agg' and r.a[1] == 'Found':
        return 'found', norm(r.a[2][0][1])
    if r.op == 'agg' and r.a[1] == 'NotFound':
        return 'none',
    if r.op == 'call' and r.a[0].endswith('find_item'):
        x = [y for y in walk_args_(r)]
        if len(x) == 2:
            return 'call', norm(x[0]), x[1]
    return None


def walk_args_(t):
    for x in t.a[1:]:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            yield from (y for y in x if isinstance(y, N))


def rest_of(p, t):
    """is t the list p without its first element"""
    if t.op == 'app' and t.a[0] == 'index' or t.op == 'index':
        xs = [y for y in t.a if isinstance(y, N)]
        if len(xs) == 2 and xs[0] is p and xs[1].op == 'agg' and [v for _, v in xs[1].a[2]] == [kint(1)] and tyname(xs[1].a[0]) == 'RangeFrom':
            return True
    if t.op == 'app' and t.a[0] in ('skip', 'tail') and t.a[1] is p:
        return True
    return False


def elem0(p):
    return [proj_get(p, ('[]', kint(0))), ]


PICKS = {'Iterator::' + x for x in ('max_by_key', 'min_by_key', 'max_by', 'min_by', 'max', 'min', 'last', 'nth', 'reduce')}


def judge_step(ctx, fn, o, item, P, heads, site, rule, filtered=False):
    """one outcome of a lookup of the path P in item: False when it could not be judged"""
    r = found(o.ret)
    if r is None:
        if mentions(o.ret, lambda t: t.op == 'rec' and mentions(t.a[0], lambda y: y is F(item, 'Snapshot.0', 'items') or y is F(item, 'items'))):
            ctx.ob(False, rule, site + '|first', 'not the first item of that name is taken', fn, detail=o.show())
            return True
        return False
    lo, hi = length(o, P)
    top = filtered                                         # a snapshot looks up its own items
    if not top:
        if hi <= 0:
            ctx.ob(r == ('found', item), rule, site + '|end', 'at the end of the path %s is returned' % show(o.ret)[:120], fn, detail=o.show())
            return True
        if lo < 1:
            ctx.ob(False, rule, site + '|ends', 'the end of the path makes no difference', fn, detail=o.show())
            return True
    else:
        if hi <= 0:
            ctx.ob(r == ('none',), rule, site + '|empty', 'the empty path leads to %s' % show(o.ret)[:120], fn, detail=o.show())
            return True
    hs = heads(o)
    if not top:
        e = [x for x in (seglen(o, h) for h in hs) if x is not None]
        if e and e[0]:
            good = r[0] == 'call' and r[1] is item and rest_of(P, r[2])
            ctx.ob(good, rule, site + '|ignored', 'an empty segment leads to %s' % show(o.ret)[:160], fn, detail=o.show())
            return True
        v = variant_of(o, item, ctx.adt('ItemKind')['p'], ctx.db)
        if 'Snapshot' not in v:
            ctx.ob(r == ('found', item), rule, site + '|value', 'a path below a value leads to %s' % show(o.ret)[:120], fn, detail=o.show())
            return True
        if len(v) > 1:
            ctx.ob(False, rule, site + '|kind', 'whether the item is a snapshot makes no difference', fn, detail=o.show())
            return True
        if not e:
            ctx.ob(False, rule, site + '|nonempty', 'empty segments are not ignored', fn, detail=o.show())
            return True
        coll = F(item, 'Snapshot.0', 'items')
    else:
        if lo < 1:
            ctx.ob(False, rule, site + '|some', 'whether the path is empty makes no difference', fn, detail=o.show())
            return True
        coll = F(item, 'items')
    here = [first_named(o, coll, h) for h in hs]
    here = next((x for x in here if x is not None), None)
    if here is None:
        if any(mentions(a, lambda t: t.op in ('app', 'call') and str(t.a[0]).split('#')[0] in PICKS and mentions(t, lambda y: y is coll)) for a in o.facts):
            ctx.ob(False, rule, site + '|first', 'not the first item of that name is taken', fn, detail=o.show())
            return True
        return False
    if here in ('rev', 'other'):
        ctx.ob(False, rule, site + '|' + here, 'the item is searched for %s' % ('backwards' if here == 'rev' else 'by something else than its name'), fn, detail=o.show())
        return True
    if here is False:
        ctx.ob(r == ('none',), rule, site + '|unknown', 'an unknown name leads to %s' % show(o.ret)[:160], fn, detail=o.show())
    else:
        good = r[0] == 'call' and r[1] is F(mk('elem', coll), '1') and rest_of(P, r[2])
        ctx.ob(good, rule, site + '|below', 'the item of that name is followed as %s' % show(o.ret)[:200], fn, detail=o.show())
    return True


def heads_of(P):
    def h(o):
        got = []

        def f(x):
            if x.op == 'proj' and False:
                got.append(x)
        first = F(P, ('[]', kint(0)))
        return [first]
    return h


def step(ctx):
    fn = ctx.free(CALL, opt=True)
    if fn is None:
        ctx.undecided.append('find_item not found')
        return
    ok_ = True
    for o in ctx.run(fn, barrier=set(BARRIER) | {CALL}) or []:
        ok_ &= judge_step(ctx, fn, o, arg(1), arg(2), heads_of(arg(2)), fn['p'], 'step')
    if not ok_:
        ctx.undecided.append('find_item: a way through it is not of a known form')


def segments(P):
    """is P the list of the non-empty parts of the path: True, False, None (unknown form)"""
    if P.op == 'app':
        coll, init, fam = P, lst(None, []), None               # all parts, the empty ones too
    elif P.op == 'filtered':
        coll, init, fam = P.a[0], lst(None, []), P.a[1]
    elif P.op == 'rec':
        coll, init, fam = P.a
    else:
        return None
    if not (coll.op == 'app' and coll.a[0] == 'str::split' and coll.a[1] is arg(1) and coll.a[2] is arg(2)):
        return False if coll.op == 'app' and str(coll.a[0]).startswith('str::') else None
    if init is not lst(None, []) and not (init.op == 'list' and not init.a[1]):
        return False
    el = mk('elem', coll)
    if fam is None:
        return False
    if P.op == 'filtered':
        if len(fam) != 1 or len(next(iter(fam))) != 1:
            return False                                       # kept under exactly one condition
        fam = {(f, lst(mk('me'), [el])) for f in fam}
    for facts, x in fam:
        fs = dict(facts)
        empty = None
        for a, s in fs.items():
            if a.op == 'int' and a.a[0].op == 'app' and a.a[0].a[0] == 'len' and a.a[0].a[1] is el:
                empty = True if s[-1][1] <= 0 else False if s[0][0] == 1 else None
            elif a.op == 'eq' and el in a.a and kstr('') in a.a:
                empty = True in s
        if empty is None:
            return False
        if empty != (x.op == 'me'):
            return False
        if not empty and not (x.op == 'list' and x.a[0].op == 'me' and list(x.a[1]) == [el]):
            return False
    return True


def path(ctx):
    fn = ctx.inh('Snapshot', 'find_with_separator')
    n = 0
    for o in ctx.run(fn, barrier=set(BARRIER) | {CALL}) or []:
        P = set()

        def f(x):
            if x.op in ('rec', 'filtered') and mentions(x.a[0], lambda y: y is arg(1)):
                P.add(x)
            elif x.op == 'app' and str(x.a[0]).startswith('str::') and arg(1) in x.a:
                raw.add(x)
        raw = set()
        for a in o.facts:
            walk(a, f)
        P = P or raw
        if len(P) != 1:
            ctx.undecided.append('%s: how the path is taken apart is not of a known form' % fn['p'])
            continue
        P = P.pop()
        g = segments(P)
        if g is None:
            ctx.undecided.append('%s: how the path is taken apart is not of a known form' % fn['p'])
            continue
        ctx.ob(g, 'path', fn['p'] + '|segments', 'the path is taken apart as %s' % show(P)[:300], fn)
        if g:
            if not judge_step(ctx, fn, o, SELF, P, heads_of(P), fn['p'], 'step', filtered=True):
                ctx.undecided.append('%s: a way through it is not of a known form' % fn['p'])
    fn = ctx.inh('Snapshot', 'find', opt=True)
    for o in ctx.run(fn, barrier=set(BARRIER) | {SFIND}) if fn else []:
        ctx.ob(is_find(o.ret, SELF, arg(1), slash()), 'path', fn['p'], 'find is %s' % show(o.ret)[:160], fn)


def slash():
    return ('/', 47)


def is_find(r, snap, p, sep):
    r = norm(r)
    if r.op != 'call' or r.a[0] != SFIND:
        return False
    xs = [y for y in walk_args_(r)]
    good = len(xs) == 3 and xs[0] is snap and xs[1] is p
    return good and (xs[2] is sep if isinstance(sep, N) else xs[2].op == 'k' and xs[2].a[1] in sep)


def relative(ctx):
    for m in ('find_with_separator', 'find'):
        fn = ctx.inh('FindItem', m, opt=True)
        for o in ctx.run(fn, barrier=set(BARRIER) | {SFIND}) if fn else []:
            v = variant_of(o, SELF, ctx.adt('FindItem')['p'], ctx.db)
            it = F(SELF, 'Found.0')
            k = variant_of(o, it, ctx.adt('ItemKind')['p'], ctx.db) if v == {'Found'} else frozenset()
            sep = arg(2) if m != 'find' else slash()
            if v == {'Found'} and k == {'Snapshot'}:
                ctx.ob(is_find(o.ret, F(it, 'Snapshot.0'), arg(1), sep), 'relative', fn['p'] + '|snapshot', 'below a snapshot found there is %s' % show(o.ret)[:160], fn)
            elif v == {'NotFound'} or v == {'Found'} and 'Snapshot' not in k:
                ctx.ob(found(o.ret) == ('none',), 'relative', fn['p'] + '|nothing', 'below what is no snapshot there is %s' % show(o.ret)[:160], fn)
            else:
                ctx.ob(False, 'relative', fn['p'] + '|kind', 'what was found makes no difference: %s' % show(o.ret)[:160], fn)
    fn = ctx.inh('FindItem', 'opt', opt=True)
    for v in ('Found', 'NotFound') if fn else ():
        x = agg(ctx.adt('FindItem')['p'], v, [('0', IN('item'))] if v == 'Found' else [])
        for o in ctx.run(fn, args=[x]) or []:
            want = some(IN('item')) if v == 'Found' else agg(o.ret.a[0], 'None', []) if o.ret.op == 'agg' else None
            ctx.ob(o.ret is want, 'option', fn['p'] + '|' + v, '%s is %s' % (v, show(o.ret)[:100]), fn)
    fn = ctx.inh('FindDurationItem', 'opt', opt=True)
    for v in ('Duration', 'NotADuration', 'NotFound') if fn else ():
        x = agg(ctx.adt('FindDurationItem')['p'], v, [('0', IN('d'))] if v == 'Duration' else [])
        for o in ctx.run(fn, args=[x]) or []:
            want = some(IN('d')) if v == 'Duration' else agg(o.ret.a[0], 'None', []) if o.ret.op == 'agg' else None
            ctx.ob(o.ret is want, 'option', fn['p'] + '|' + v, '%s is %s' % (v, show(o.ret)[:100]), fn)


def durations(ctx):
    fi, ik = ctx.adt('FindItem')['p'], ctx.adt('ItemKind')['p']
    for unit, k in UNITS.items():
        fn = ctx.inh('FindItem', 'to_duration_' + unit.lower(), opt=True)
        if fn is None:
            continue
        for o in ctx.run(fn, args=[agg(fi, 'NotFound', [])]) or []:
            ctx.ob(o.ret.op == 'agg' and o.ret.a[1] == 'NotFound', 'duration', fn['p'] + '|none', 'nothing found becomes %s' % show(o.ret)[:100], fn)
        for kind in ('Text', 'Boolean', 'Float', 'UInt', 'Int', 'Snapshot'):
            x = IN('x.' + kind)
            if kind == 'UInt':
                mark_unsigned(x)
            for o in ctx.run(fn, args=[agg(fi, 'Found', [('0', agg(ik, kind, [('0', x)]))])]) or []:
                site = fn['p'] + '|' + kind
                r = o.ret
                got = r.a[2][0][1] if r.op == 'agg' and r.a[1] == 'Duration' else None if r.op == 'agg' and r.a[1] == 'NotADuration' else '?'
                neg_ = False
                if kind == 'Int':
                    rg = lin_fact(o.facts, lambda d: d[x] if len(d) == 1 and x in d else None)
                    neg_ = '?' if rg is None or rg[0] < 0 <= rg[1] else rg[1] < 0
                if kind not in ('UInt', 'Int') or neg_ is True:
                    ctx.ob(got is None, 'duration', site + '|no', '%s becomes %s' % ('a negative number' if neg_ else kind, show(r)[:100]), fn, detail=fmt_facts(o))
                elif neg_ == '?':
                    ctx.ob(False, 'duration', site + '|sign', 'whether a number is negative makes no difference: %s' % show(r)[:100], fn, detail=fmt_facts(o))
                else:
                    good = isinstance(got, N) and rebuild(got, lambda t: t.a[1] if t.op == 'app' and t.a[0] in WIDE else None) is mk_lin({x: k}, 0)
                    ctx.ob(good, 'duration', site, '%s in %s becomes %s' % (kind, unit.lower(), show(r)[:100]), fn, detail=fmt_facts(o))


# -------------------------------------------------------------------- P24
def p24(ctx):
    ctx.rule('item', 'each kind of item becomes exactly its value')
    ctx.rule('all', 'a snapshot becomes an object with every item under its name')
    ctx.rule('text', 'the text is that of the whole snapshot, compact or with the indentation asked for')
    ctx.rule('default', 'by default booleans stay booleans and the text is compact')
    json_items(ctx)
    json_all(ctx)
    json_text(ctx)


def json_items(ctx):
    fn = ctx.inh('ItemKind', 'to_json_value', opt=True)
    if fn is None:
        ctx.undecided.append('ItemKind::to_json_value not found')
        return
    ik = ctx.adt('ItemKind')['p']
    cfg = arg(1)
    ints = F(cfg, 'make_booleans_ints')
    for kind in ('Text', 'Boolean', 'Float', 'UInt', 'Int', 'Snapshot'):
        x = IN('x.' + kind)
        if kind == 'UInt':
            mark_unsigned(x)
        cases = [(None, x, {})] if kind != 'Boolean' else [(i, b, {mk('bool', ints): frozenset((i,))}) for i in (True, False) for b in (TRUE, FALSE)]
        for i, b, facts in cases:
            for o in ctx.run(fn, args=[agg(ik, kind, [('0', b)]), cfg], facts=facts, barrier=set(BARRIER) | {SJSON}) or []:
                r = norm(o.ret)
                site = '%s|%s' % (fn['p'], kind)
                if kind == 'Snapshot':
                    xs = list(walk_args_(r)) if r.op == 'call' and r.a[0] == SJSON else []
                    good = xs == [x, cfg]
                else:
                    v = r.a[1] if r.op == 'app' and str(r.a[0]) == 'into:JsonValue' else r
                    while v.op == 'app' and v.a[0] in {'UInt': ('cast:u64', 'cast:usize', 'cast:u128'), 'Int': ('cast:i64', 'cast:isize', 'cast:i128')}.get(kind, ()):
                        v = v.a[1]
                    want = b if i is not True else kint(1 if b is TRUE else 0)
                    good = v is want
                    if v.op == 'agg' and v.a[1] in ('String', 'Short', 'Boolean', 'Number'):
                        w = v.a[2][0][1]
                        good = norm(w) is want or w.op == 'app' and str(w.a[0]).startswith('into:') and w.a[1] is want
                ctx.ob(good, 'item', site, 'an item (%s%s) becomes %s' % (kind, '' if i is None else ' %s, booleans as integers: %s' % (b is TRUE, i), show(o.ret)[:120]), fn)


def json_all(ctx):
    fn = ctx.inh('Snapshot', 'to_json_value', opt=True)
    if fn is None:
        ctx.undecided.append('Snapshot::to_json_value not found')
        return
    items = F(SELF, 'items')
    for o in ctx.run(fn, barrier=set(BARRIER) | {IJSON}) or []:
        site = fn['p']
        obj = norm(o.ret)
        fresh = obj.op == 'call' and obj.a[0] in ('JsonValue::new_object', 'Object::new', 'Object::with_capacity') or obj.op == 'agg' and obj.a[1] == 'Object'
        if not fresh:
            ctx.undecided.append('%s: what is returned is not of a known form: %s' % (site, show(o.ret)[:120]))
            continue
        el = mk('elem', items)
        writes, odd = [], []
        for lp in loops(o.ev):
            if norm(lp.a[0]) is not items or lp.a[0].op == 'app' and lp.a[0].a[0] == 'rev':
                odd.append(lp)
                continue
            whole_ = lp.a[2]
            for facts, evs, wr in lp.a[1]:
                w = [(k.a[-1] if k.op in ('app', 'index') else k, v) for k, v in wr if mentions(k, lambda t: t.op == 'call' and t.a[0].endswith(('new_object', 'Object::new', 'Object::with_capacity')))]
                for e in evs:
                    if e.op == 'ev' and e.a[0].endswith('::insert') and len(e.a[2]) == 2:
                        w.append((e.a[2][0], e.a[2][1]))
                writes.append((facts, w, whole_))
        if odd:
            ctx.ob(False, 'all', site + '|coll', 'the object is filled from %s' % show(odd[0].a[0])[:120], fn)
            continue
        ctx.ob(bool(writes), 'all', site + '|fills', 'the object is not filled with the items', fn, detail=o.show())
        for facts, w, total in writes:
            ctx.ob(total, 'all', site + '|total', 'not all items are visited', fn)
            good = len(w) == 1 and norm(w[0][0]) is F(el, '0')
            if good:
                v = norm(w[0][1])
                good = v.op == 'call' and v.a[0] == IJSON and list(walk_args_(v))[:2] == [F(el, '1'), arg(1)]
            ctx.ob(good, 'all', site + '|each', 'an item is written as %s' % ([(show(k)[:60], show(v)[:100]) for k, v in w] or 'nothing (when %s)' % showset_of(facts)), fn)


def showset_of(facts):
    return ', '.join(show(a)[:80] for a, _ in facts)


def json_text(ctx):
    for m in ('to_json', 'to_default_json'):
        fn = ctx.inh('Snapshot', m, opt=True)
        for o in ctx.run(fn, barrier=set(BARRIER) | {SJSON}) if fn else []:
            r = norm(o.ret)
            site = fn['p']
            if r.op != 'call' or not r.a[0].endswith(('::stringify', '::stringify_pretty', '::dump', '::pretty')):
                ctx.undecided.append('%s: the text is made in an unknown way: %s' % (site, show(o.ret)[:120]))
                continue
            xs = list(walk_args_(r))
            d = norm(xs[0])
            ds = list(walk_args_(d)) if d.op == 'call' and d.a[0] == SJSON else []
            ctx.ob(len(ds) == 2 and ds[0] is SELF, 'text', site + '|whole', 'the text is that of %s' % show(d)[:120], fn)
            pretty = r.a[0].endswith('pretty')
            if m == 'to_json':
                ctx.ob(len(ds) == 2 and ds[1] is arg(1), 'text', site + '|config', 'the settings used are %s' % [show(y)[:80] for y in ds[1:]], fn)
                s = is_some(o, F(arg(1), 'pretty'))
                good = s is not None and s == pretty and (not pretty or len(xs) == 2 and uncast(xs[1]) is F(arg(1), 'pretty', 'Some.0'))
                ctx.ob(good, 'text', site + '|pretty', 'the indentation (%s) becomes %s' % ({True: 'some', False: 'none', None: 'any'}[s], show(r)[:100]), fn)
            else:
                cfg = ds[1] if len(ds) == 2 else None
                ctx.ob(cfg is not None and F(cfg, 'make_booleans_ints') is FALSE and not pretty, 'default', site, 'by default the text is %s' % show(r)[:200], fn)
    fn = ctx.trait_fn('JsonConfig', 'Default', 'default', opt=True)
    for o in ctx.run(fn) if fn else []:
        p = F(o.ret, 'pretty')
        ctx.ob(F(o.ret, 'make_booleans_ints') is FALSE and p.op == 'agg' and p.a[1] == 'None', 'default', fn['p'], 'the default settings are %s' % show(o.ret)[:120], fn)
