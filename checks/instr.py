"""What instruments do with updates and what they show: P13 counters and meters, P19 rates, P14 gauges, P15 histograms, P16 switches, P17 displays."""
import math
from snap import *
from snapshots import layouts, items, getter_field
from processing import lin_fact, is_now, and3, not3, or3

T = IN('ts')
UNITS = {'Nanoseconds': 1, 'Microseconds': 10**3, 'Milliseconds': 10**6, 'Seconds': 10**9}
SECOND = 10**9


# -------------------------------------------------------------------- updates
def observed(ctx, variant, *xs):
    return agg(ctx.adt('ObservedValue')['p'], variant, [(str(i), x) for i, x in enumerate(xs)])


def values(ctx):
    """one observed value of every kind"""
    known = {'SignedInteger': 1, 'UnsignedInteger': 1, 'Float': 1, 'Bool': 1, 'Duration': 2, 'ChangedBy': 1}
    for v in ctx.adt('ObservedValue')['vs']:
        n = v['n'] if isinstance(v, dict) and 'n' in v else v['name']
        if n not in known:
            ctx.undecided.append('ObservedValue::%s is not specified' % n)
            continue
        x = IN('v.' + n)
        if n == 'UnsignedInteger':
            mark_unsigned(x)
        if n == 'Duration':
            mark_unsigned(x)
            yield n, observed(ctx, n, x, IN('unit')), x
        else:
            yield n, observed(ctx, n, x), x


def updates(ctx):
    """(kind, update term, its payload): every kind of update"""
    p = ctx.adt('Update')['p']
    n = IN('n')
    mark_unsigned(n)
    yield 'one', agg(p, 'Observation', [('0', T)]), kint(1)
    yield 'many', agg(p, 'Observations', [('0', n), ('1', T)]), n
    for k, v, x in values(ctx):
        yield k, agg(p, 'ObservationWithValue', [('0', v), ('1', T)]), x


def run_update(ctx, ty, u, facts=(), obj=SELF, barrier=BARRIER, overrides=None):
    fn = ctx.trait_fn(ty, 'Updates', 'update')
    return fn, ctx.run(fn, args=[obj, u], facts=facts, barrier=barrier, overrides=overrides)


def changed(ctx, ty, o, obj=SELF):
    """{field: new value} of the fields an update changed"""
    r = {}
    for f, _ in ctx.fields(ty):
        a, b = F(obj, f), F(o.final(obj), f)
        if a is not b:
            r[f] = b
    return r


WIDE = ('cast:u64', 'cast:i64', 'cast:usize', 'cast:isize', 'cast:u128', 'cast:i128')


def uncast(x):
    while x.op == 'app' and x.a[0] in WIDE:
        x = x.a[1]
    return x


def known(facts, t):
    """t with every input the facts fix to a single number replaced by it"""
    m = {}
    for a, s in facts.items():
        if a.op == 'int' and len(s) == 1 and s[0][0] == s[0][1]:
            d, c = lin_of(a.a[0])
            if len(d) == 1 and c == 0 and list(d.values()) == [1]:
                m[next(iter(d))] = kint(s[0][0])
    return rebuild(t, lambda x: m.get(x)) if m else t


def difference(a, b):
    """a - b of two integer terms, casts ignored"""
    d, c = lin_of(uncast(a))
    e, k = lin_of(uncast(b))
    d = dict(d)
    for t, q in e.items():
        d[t] = d.get(t, 0) - q
    return mk_lin({t: q for t, q in d.items() if q}, c - k)


def inner(v):
    """payload of an ItemKind"""
    return v.a[2][0][1] if v.op == 'agg' and len(v.a[2]) == 1 else v


# -------------------------------------------------------------------- values of facts
def float_points(facts, v):
    """representatives of every region the facts distinguish for float v: all constants compared with, their neighbours, and the extremes"""
    cs = {0.0, 0.5, -0.5, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64}
    for f in facts:
        for a in f:
            if a.op == 'ford':
                for x in a.a:
                    if isinstance(x, N) and fconst(x) is not None:
                        cs.add(fconst(x))
    pts = {float('nan'), float('inf'), float('-inf'), 1.0, -1.0, 0.3, -0.3, 1e300, -1e300}
    for c in cs:
        pts |= {c, math.nextafter(c, math.inf), math.nextafter(c, -math.inf)}
    return sorted(pts, key=lambda x: (math.isnan(x), x if not math.isnan(x) else 0))


def fconst(t):
    if t.op != 'k' or isinstance(t.a[1], bool):
        return None
    try:
        return float(t.a[1]) if t.a[0] != 'str' else None
    except (TypeError, ValueError):
        return None


def rnd(x):
    if math.isnan(x) or math.isinf(x) or abs(x) >= 2.0 ** 52:
        return x
    return math.copysign(math.floor(abs(x) + 0.5), x)


def fval(t, env):
    """value of a float term under an assignment, None if it contains anything else"""
    if t in env:
        return env[t]
    if t.op == 'k':
        return fconst(t)
    if t.op != 'app':
        return None
    xs = [fval(x, env) for x in t.a[1:] if isinstance(x, N)]
    if None in xs:
        return None
    n = str(t.a[0])
    try:
        if n == 'fadd':
            return xs[0] + xs[1]
        if n == 'fsub':
            return xs[0] - xs[1]
        if n == 'fmul':
            return xs[0] * xs[1]
        if n == 'fdiv':
            return xs[0] / xs[1] if xs[1] else float('nan')
        if n == 'fneg':
            return -xs[0]
        if n in ('i2f', 'f2f'):
            return xs[0]
        if n.endswith('::exp'):
            return math.exp(xs[0])
        if n.endswith('::round'):
            return rnd(xs[0])
        if n.endswith('::abs'):
            return abs(xs[0])
    except (OverflowError, ValueError):
        return None
    return None


def admits(facts, env):
    """do the float comparisons among the facts hold under env (None when one can not be evaluated)"""
    for a, s in facts.items():
        if a.op != 'ford':
            continue
        x, y = fval(a.a[0], env), fval(a.a[1], env)
        if x is None or y is None:
            if any(mentions(z, lambda t: t in env) for z in a.a if isinstance(z, N)):
                return None
            continue
        r = 'un' if math.isnan(x) or math.isnan(y) else 'lt' if x < y else 'gt' if x > y else 'eq'
        if r not in s:
            return False
    return True


def to_i64(kind, x, o):
    """what convert_to_i64 gives for the value: term, None (no value) or '?' (this path did not find out)"""
    if kind == 'SignedInteger':
        return x
    if kind == 'UnsignedInteger':
        r = lin_fact(o.facts, lambda d: d[x] if len(d) == 1 and x in d else None)
        if r is None:
            return '?'
        return x if r[1] <= 2**63 - 1 else None if r[0] >= 2**63 else '?'
    if kind == 'Float':
        got = set()
        for p in float_points([o.facts], x):
            ok = admits(o.facts, {x: p})
            if ok is None:
                return '?'
            if ok:
                got.add(-2.0 ** 63 <= rnd(p) < 2.0 ** 63)
        if len(got) != 1:
            return '?'
        return mk('app', 'f2i:i64', mk('app', 'f64::round', x)) if True in got else None
    return None


def only(facts, x, ok):
    """do the facts restrict integer x to ranges that are ok"""
    s = facts.get(mk('int', x))
    return s is not None and all(ok(l, h) for l, h in s)


def unit_of(o, u):
    """the unit this path found u to be"""
    if u.op == 'agg':
        return u.a[1]
    for a, s in o.facts.items():
        if a.op == 'disc' and a.a[0] is u and len(s) == 1:
            return next(iter(s))
    return None


def in_unit(x, have, want):
    """duration x given in unit `have`, expressed in unit `want` (rounded down)"""
    h, w = UNITS[have], UNITS[want]
    if h >= w:
        return mk_lin({x: h // w}, 0)
    return mk('app', 'div', x, kint(w // h))


def same_int(a, b):
    a, b = uncast(a), uncast(b)
    return a is b or difference(a, b) is kint(0)


def converted(ctx, ty, kind, x, o, unit_field=None):
    """the number an update of this kind carries for an instrument that shows values: term, None, '?'"""
    if kind in ('one', 'many'):
        return None
    if kind == 'Duration':
        if unit_field is None:
            return None
        have, want = unit_of(o, IN('unit')), unit_of(o, unit_field)
        if have is None or want is None:
            return '?'
        return in_unit(x, have, want)
    return to_i64(kind, x, o)


# -------------------------------------------------------------------- what is shown
def shown(ctx, ty, obj, facts=(), descriptive=FALSE):
    """[(path, [(key, value)])] of the top level items the component adds"""
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    r = []
    for o in ctx.run(fn, args=[obj, arg(1), descriptive], facts=facts) or []:
        try:
            base, seq = base_items(o.final(arg(1)))
        except Odd as e:
            ctx.undecided.append('%s: %s' % (fn['p'], e))
            continue
        r.append((o, seq))
    return fn, r


def item(seq, *path):
    """the value under the key path: found value or None"""
    for x in seq:
        if x[0] == 'item' and (x[1] is path[0] or key_of(x[1]) == path[0] or norm(x[1]) is path[0]):
            if len(path) == 1:
                return x[2]
            s = nested(x[2])
            if s is None:
                return None
            try:
                return item(base_items(s)[1], *path[1:])
            except Odd:
                return None
    return None


def new_object(ctx, ty, name='new', args=None):
    fn = ctx.inh(ty, name)
    os = ctx.run(fn, args=args) or []
    return os[0] if len(os) == 1 else None


# -------------------------------------------------------------------- P13
def p13(ctx):
    ctx.rule('count', 'each update raises the count by exactly what it stands for')
    ctx.rule('rates', 'each update is fed exactly once, with the same number, to each of the three rates')
    ctx.rule('updated', 'an update reports 1 if it was counted and 0 otherwise')
    ctx.rule('shown', 'the number shown is the count, zero for a new instrument')
    ctx.rule('else', 'an update changes nothing else')
    counter(ctx)
    meter(ctx, 'Meter')
    meter(ctx, 'ValueMeter')


def counter(ctx):
    ty = 'Counter'
    nm = F(SELF, 'name')
    fn, before = shown(ctx, ty, SELF)
    vals = {item(seq, nm) for o, seq in before}
    ok = len(vals) == 1 and None not in vals and next(iter(vals)).a[1] == 'UInt'
    ctx.ob(ok, 'shown', fn['p'], 'a counter shows %s under its name' % ', '.join(sorted(show(v) if v is not None else 'nothing' for v in vals)), fn)
    if not ok:
        return
    cnt = inner(next(iter(vals)))
    cfield = [f for f, _ in ctx.fields(ty) if mentions(cnt, lambda t: t is F(SELF, f))]
    new = new_object(ctx, ty)
    if new is not None and len(cfield) == 1:
        z = F(new.ret, cfield[0])
        ctx.ob(z is kint(0), 'shown', 'new', 'a new counter starts at %s' % show(z), fn)

    def judge(f, o, inc, site, what, ret=None):
        ch = changed(ctx, ty, o)
        after = rebuild(cnt, lambda t: ch[t.a[1]] if t.op == 'f' and t.a[0] is SELF and t.a[1] in ch else None)
        inc = known(o.facts, inc)
        ctx.ob(known(o.facts, difference(after, cnt)) is inc, 'count', site, '%s changes the count by %s instead of %s' % (what, show(difference(after, cnt)), show(inc)), f,
               detail=o.show())
        ctx.ob(set(ch) <= set(cfield), 'else', site + '|else', '%s also changes %s' % (what, sorted(set(ch) - set(cfield))), f)
        if ret is not None:
            ctx.ob(o.ret is ret, 'updated', site + '|ret', '%s reports %s' % (what, show(o.ret)), f)
    for kind, u, x in updates(ctx):
        f, outs = run_update(ctx, ty, u)
        for o in outs or []:
            judge(f, o, x if kind == 'many' else kint(1), '%s|%s' % (f['p'], kind), 'an update (%s)' % kind, kint(1))
    n = arg(1)
    mark_unsigned(n)
    for m, inc in (('inc', kint(1)), ('inc_by', n)):
        f = ctx.inh(ty, m, opt=True)
        for o in (ctx.run(f) or []) if f is not None else []:
            judge(f, o, inc, f['p'], m + '()')
    f = ctx.inh(ty, 'get', opt=True)
    for o in (ctx.run(f) or []) if f is not None else []:
        ctx.ob(uncast(o.ret) is uncast(cnt), 'shown', f['p'], 'get() returns %s but %s is shown' % (show(o.ret), show(cnt)), f)


def atomic(n):
    return n.a[0].startswith('atomic-')


def marks(o):
    """[(kind, place, number, path)] of the things done to event counters, in order"""
    r = []
    for e, p in events(o.ev):
        if e.a[0] in ('atomic-fetch_add', 'atomic-fetch_sub', 'atomic-store', 'atomic-swap'):
            r.append((e.a[0][7:], norm(e.a[1]), e.a[2][0], p))
    return r


def windows(ctx, ty):
    """{key: place of the rate shown under it} and the place of the count, from the layout"""
    nm = F(SELF, 'name')
    r, cnt = {}, set()
    for l in layouts(ctx, ty) or []:
        v = item(l.top, nm)
        s = nested(v) if v is not None else None
        if s is None:
            continue
        try:
            b, seq = base_items(s)
        except Odd:
            continue
        for x in items(seq):
            k = key_of(x[1])
            if k == 'count':
                cnt.add(norm(inner(x[2])))
                continue
            q = nested(x[2])
            if q is None:
                continue
            rate = item(base_items(q)[1], 'rate')
            r.setdefault(k, []).append((l, norm(inner(rate)) if rate is not None else None))
    return r, cnt


def rate_place(t):
    """the average object a shown rate is read from: the X of X.rate"""
    fs = []

    def f(x):
        if x.op == 'f' and x.a[1] == 'rate':
            fs.append(x.a[0])
    walk(t, f)
    return fs[0] if len(set(fs)) == 1 else None


def opaque(ctx, ty, win):
    """a shown rate that is computed in a way that can not be traced to an average"""
    for k, v in win.items():
        for l, t in v:
            if t is not None and rate_place(t) is None and fval(t, {}) is None:
                ctx.undecided.append('%s: where %s comes from (%s)' % (ty, k, show(t)[:120]))
                return True
    return False


def meter(ctx, ty):
    win, cnt = windows(ctx, ty)
    if opaque(ctx, ty, win):
        return
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    ctx.ob(len(cnt) == 1, 'shown', fn['p'], '%s shows %s as its count' % (ty, [show(c) for c in cnt]), fn)
    if len(cnt) != 1:
        return
    cnt = uncast(next(iter(cnt)))
    places = {k: {rate_place(t) for l, t in v if t is not None and rate_place(t) is not None} for k, v in win.items()}
    rates = set().union(*places.values()) if places else set()
    ctx.ob(len(rates) == 3 and None not in rates, 'rates', fn['p'] + '|windows', '%s shows rates of %s' % (ty, sorted(show(x) for x in rates)), fn)
    ufield = F(SELF, 'display_time_unit')
    for kind, u, x in updates(ctx):
        f, outs = run_update(ctx, ty, u)
        site = '%s|%s' % (f['p'], kind)
        for o in outs or []:
            if ty == 'Meter':
                n = x if kind == 'many' else kint(1)
                if kind == 'many' and not marks_of(o, rates) and only(o.facts, x, lambda l, h: l >= 2**63 or l == h == 0):
                    n = kint(0)                            # numbers that do not fit are not counted
                ret = kint(1)
            else:
                n = converted(ctx, ty, kind, x, o, ufield)
                if n == '?':
                    ctx.ob(False, 'count', site + '|range', '%s: whether a value (%s) is in range makes no difference' % (ty, kind), f, detail=o.show())
                    continue
                ret = kint(0) if n is None else kint(1)
                n = kint(0) if n is None else n
            n = known(o.facts, n)
            fin = o.final(SELF)
            after = lookup(fin, cnt)
            d = known(o.facts, difference(after, cnt))
            ctx.ob(same_int(d, n) or same_cast(d, n), 'count', site,
                   '%s: an update (%s) changes the count by %s instead of %s' % (ty, kind, show(d), show(n)), f, detail=o.show())
            ctx.ob(o.ret is ret, 'updated', site + '|ret', '%s: an update (%s) reports %s instead of %s' % (ty, kind, show(o.ret), show(ret)), f)
            ms = marks_of(o, rates)
            for pl in rates:
                mine = [m for m in ms if pl in m[4]]
                if n is kint(0):
                    bad = [m for m in mine if uncast(m[2]) is not kint(0)]
                    ctx.ob(not bad, 'rates', site + '|none', '%s: an update (%s) that is not counted is fed to a rate' % (ty, kind), f)
                else:
                    good = len(mine) == 1 and mine[0][0] == 'fetch_add' and same_cast(known(o.facts, mine[0][2]), n)
                    ctx.ob(good, 'rates', '%s|%s' % (site, show(pl)[-3:]), '%s: an update (%s) is fed to %s as %s instead of once as %s' % (
                        ty, kind, show(pl), [show(m[2]) for m in mine], show(n)), f, detail=o.show())
            ctx.ob(all(m[4] for m in ms), 'rates', site + '|other', '%s: an update (%s) changes %s' % (ty, kind, [show(m[1]) for m in ms if not m[4]]), f)


def same_cast(a, b):
    """equal when conversions between integer types are ignored"""
    def strip(t):
        return rebuild(t, lambda x: strip(x.a[1]) if x.op == 'app' and x.a[0] in WIDE else None)
    a, b = strip(a), strip(b)
    return a is b or difference(a, b) is kint(0)


def marks_of(o, rates):
    """additions to event counters: (kind, place, number, loop path, averages it concerns)"""
    r = []
    for k, pl, n, p in marks(o):
        if k == 'swap':
            continue
        own = pl.a[0] if pl.op == 'f' else None
        if own in rates:
            hit = {own}
        elif own is not None and own.op == 'elem' and p and all(l.a[2] for l, _ in p):
            hit = {x for x in rates if x.op == 'f' and x.a[0] is own.a[0] or norm_coll(x) is own.a[0]}
        else:
            hit = set()
        r.append((k, pl, n, p, hit))
    return r


def norm_coll(x):
    """the collection an indexed place belongs to"""
    return x.a[0] if x.op in ('f', 'idx', 'elem') else None


def lookup(fin, place):
    """the value at a place of SELF in the final state"""
    path = []
    x = place
    while x is not SELF:
        if x.op != 'f':
            return place
        path.append(x.a[1])
        x = x.a[0]
    return F(fin, *reversed(path))


# -------------------------------------------------------------------- P19
RATES = {'one_minute': ('one_minute_rate_enabled', 1, True), 'five_minutes': ('five_minute_rate_enabled', 5, False),
         'fifteen_minutes': ('fifteen_minute_rate_enabled', 15, False)}


def setter_effect(ctx, ty, method, *vals):
    """{field: value} of what a setter changes; None when it does not exist"""
    for m in ('set_' + method, method):
        fn = ctx.inh(ty, m, opt=True)
        if fn is None:
            continue
        outs = ctx.run(fn)
        if not outs:
            return None, fn
        ch = {}
        for o in outs:
            r = o.final(SELF) if m.startswith('set_') else o.ret
            for f, _ in ctx.fields(ty):
                if F(r, f) is not F(SELF, f):
                    ch.setdefault(f, set()).add(F(r, f))
        return ch, fn
    return None, None


def p19(ctx):
    ctx.rule('window', 'each rate is shown under its own name and averaged over that many minutes')
    ctx.rule('enabled', 'each rate is shown exactly when it is enabled')
    ctx.rule('cutoff', 'a rate is shown as it is, or as zero exactly when below the cutoff')
    ctx.rule('tick', 'one tick folds the events since the last tick into the average, once')
    ctx.rule('schedule', 'the averages tick once for every interval gone by, before new events are counted')
    for ty in ('Meter', 'ValueMeter'):
        rates(ctx, ty)
    ticks(ctx)
    schedule(ctx, 'Meter')
    schedule(ctx, 'ValueMeter')


def rates(ctx, ty):
    win, cnt = windows(ctx, ty)
    if opaque(ctx, ty, win):
        return
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    new = new_object(ctx, ty)
    cut, cfn = setter_effect(ctx, ty, 'lower_cutoff')
    ctx.ob(cut is not None and len(cut) == 1 and set(*cut.values()) == {arg(1)}, 'cutoff', ty + '|setter', '%s: setting the cutoff changes %s' % (ty, cut), cfn or fn)
    ctx.ob(set(win) == set(RATES), 'window', fn['p'] + '|keys', '%s shows rates under %s' % (ty, sorted(map(str, win))), fn)
    for key, (setter, minutes, default) in RATES.items():
        site = '%s|%s' % (fn['p'], key)
        if key not in win:
            continue
        ch, sfn = setter_effect(ctx, ty, setter)
        one = ch is not None and len(ch) == 1 and set(*ch.values()) == {arg(1)}
        ctx.ob(one, 'enabled', site + '|setter', '%s: %s changes %s' % (ty, setter, sorted(ch) if ch else 'nothing'), sfn or fn)
        flag = F(SELF, next(iter(ch))) if one else None
        if new is not None and one:
            ctx.ob(F(new.ret, flag.a[1]) is (TRUE if default else FALSE), 'enabled', site + '|default', '%s: %s is %s by default' % (
                ty, key, show(F(new.ret, flag.a[1]))), fn)
        places = {rate_place(t) for l, t in win[key] if t is not None and rate_place(t) is not None}
        ctx.ob(len(places) == 1, 'window', site + '|place', '%s: %s is read from %s' % (ty, key, sorted(show(x) for x in places)), fn)
        if len(places) != 1:
            continue
        pl = next(iter(places))
        if new is not None:
            alpha = [F(lookup_in(new.ret, pl), f) for f, t in ctx.fields('EWMA') if prim(t) == 'f64']
            want = 1 - math.exp(-5.0 / 60 / minutes)
            vs = [fval(a, {}) for a in alpha]
            ctx.ob(any(v is not None and abs(v - want) < 1e-12 for v in vs), 'window', site + '|minutes',
                   '%s: what is shown as %s is not averaged over %d minutes (factor %s, expected %.6f)' % (ty, key, minutes, vs, want), fn)
            ctx.ob(any(v == 0 for v in vs), 'window', site + '|start', '%s: %s does not start at zero' % (ty, key), fn)
        cutoff = F(SELF, next(iter(cut))) if cut else None
        for l in layouts(ctx, ty) or []:
            mine = [t for m, t in win[key] if m is l]
            on = truth(l.o, flag) if flag is not None else None
            if flag is not None:
                ctx.ob(on is not None and bool(mine) == on, 'enabled', site, '%s: %s is %s although it is %s' % (
                    ty, key, 'shown' if mine else 'not shown', {True: 'enabled', False: 'disabled', None: 'not looked at'}[on]), fn, detail=fmt_facts(l.o))
            for t in mine:
                if t is None:
                    ctx.ob(False, 'cutoff', site + '|none', '%s: %s has no rate' % (ty, key), fn)
                    continue
                below = None
                for a, s in l.o.facts.items():
                    if a.op != 'ford':
                        continue
                    l_, r_ = norm(a.a[0]), norm(a.a[1])
                    if r_ is cutoff and rate_place(l_) is pl:
                        below = True if s <= {'lt'} else False if 'lt' not in s else None
                    elif l_ is cutoff and rate_place(r_) is pl:
                        below = True if s <= {'gt'} else False if 'gt' not in s else None
                if below is None:
                    ctx.ob(False, 'cutoff', site + '|any', '%s: whether %s is below the cutoff makes no difference' % (ty, key), fn, detail=fmt_facts(l.o))
                elif below:
                    ctx.ob(fval(t, {}) == 0.0, 'cutoff', site + '|below', '%s: %s below the cutoff is shown as %s' % (ty, key, show(t)[:100]), fn)
                else:
                    env = {F(pl, 'rate'): 0.37}
                    v = fval(t, env)
                    ctx.ob(v is not None and abs(v - 0.37e9) < 1.0, 'cutoff', site + '|rate', '%s: %s is shown as %s instead of the average per second' % (
                        ty, key, show(t)[:100]), fn)


def lookup_in(obj, place):
    """the value in obj at the place given relative to SELF"""
    path = []
    x = place
    while x is not SELF:
        if x.op == 'f':
            path.append(x.a[1])
            x = x.a[0]
        else:
            return place
    for p in reversed(path):
        obj = proj_get(obj, p)
    return obj


def ticks(ctx):
    """EWMA: rate' = rate + alpha * (events / interval - rate), the first time events / interval"""
    fn = ctx.inh('EWMA', 'tick')
    fl = [f for f, t in ctx.fields('EWMA') if prim(t) == 'f64']
    flag = ctx.field_by('EWMA', lambda t: prim(t) == 'bool', 'flag')
    rf = ctx.inh('EWMA', 'rate')
    outs = ctx.run(rf) or []
    rate = next((f for f in fl for o in outs if mentions(o.ret, lambda t: t is F(SELF, f))), None)
    alpha = next((f for f in fl if f != rate), None)
    unc = [f for f, t in ctx.fields('EWMA') if f not in fl and f != flag]
    if rate is None or alpha is None or len(unc) != 1:
        ctx.undecided.append('EWMA: fields %s' % fl)
        return
    for o in ctx.run(fn) or []:
        ms = marks(o)
        site = fn['p']
        one = len(ms) == 1 and ms[0][0] == 'swap' and ms[0][1] is F(SELF, unc[0]) and ms[0][2] is kint(0) and not ms[0][3]
        ctx.ob(one, 'tick', site + '|events', 'a tick takes the events %d times or does not reset them' % len(ms), fn, detail=o.show())
        if not one:
            continue
        taken = [t for t in calls(o.final(SELF)) if str(t.a[0]).startswith('atomic-swap')]
        new = F(o.final(SELF), rate)
        first = truth(o, F(SELF, flag))
        if first is None:
            ctx.ob(False, 'tick', site + '|first', 'a tick does not tell the first one from later ones', fn)
            continue
        n = 2000.0
        for al, r0 in ((0.25, 3e-7), (0.5, 1e-8), (0.08, 2e-6)):
            env = {F(SELF, alpha): al, F(SELF, rate): r0}
            env.update({t: n for t in taken})
            got = fval(new, env)
            i = n / 5e9
            want = r0 + al * (i - r0) if first else i
            ctx.ob(got is not None and abs(got - want) <= 1e-9 * abs(want), 'tick', site + ('|later' if first else '|begin'),
                   'a tick makes the average %s' % show(new)[:200], fn)
        ctx.ob(truth(o, F(o.final(SELF), flag)) is True, 'tick', site + '|flag', 'after a tick the average still counts as new', fn)
    up = ctx.inh('EWMA', 'update', opt=True)
    n = arg(1)
    for o in (ctx.run(up) or []) if up is not None else []:
        ms = marks(o)
        ctx.ob(len(ms) == 1 and ms[0][0] == 'fetch_add' and ms[0][1] is F(SELF, unc[0]) and ms[0][2] is n, 'tick', up['p'],
               'counting events does %s' % [(m[0], show(m[2])) for m in ms], up)


def schedule(ctx, ty):
    """ticking happens once per elapsed interval for each of the averages, and before marking"""
    win, cnt = windows(ctx, ty)
    if opaque(ctx, ty, win):
        return
    rates_ = set()
    for k, v in win.items():
        rates_ |= {rate_place(t) for l, t in v if t is not None and rate_place(t) is not None}
    for f, outs in [run_update(ctx, ty, u) for k, u, x in updates(ctx) if k in ('many', 'one', 'SignedInteger', 'Duration')] + [
            (ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot'), ctx.run(ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')))]:
        for o in outs or []:
            order = marks(o)
            adds = [i for i, m in enumerate(order) if m[0] == 'fetch_add']
            swaps = [i for i, m in enumerate(order) if m[0] == 'swap']
            site = '%s|%s' % (f['p'], ty)
            if adds:
                ctx.ob(bool(swaps) and max(swaps) < min(adds), 'schedule', site + '|order', '%s counts an event before the averages have caught up with the clock' % ty, f)
            elif f['p'].endswith('put_snapshot'):
                ctx.ob(bool(swaps), 'schedule', site + '|caught up', '%s shows averages without catching up with the clock' % ty, f)
            for lp in [e for e in o.ev if e.op == 'loop' and any(m[0] == 'swap' for m in marks_in(e))]:
                good, why = catching_up(ctx, o, lp, rates_)
                ctx.ob(good, 'schedule', site + '|loop', '%s: %s' % (ty, why), f, detail=show_ev(lp)[:600])
            stray = [m for m in order if m[0] == 'swap' and not m[3]]
            ctx.ob(not stray, 'schedule', site + '|stray', '%s ticks an average whether or not an interval has gone by' % ty, f)


def marks_in(loop):
    return [(e.a[0][7:], norm(e.a[1]), e.a[2][0] if e.a[2] else None, p) for e, p in events((loop,)) if e.a[0].startswith('atomic-')]


def catching_up(ctx, o, lp, rates_):
    """a while loop running as long as the next tick is due, moving it on by one interval and ticking every average once"""
    if lp.a[0] is not None:
        return False, 'the averages tick for each element of %s' % show(lp.a[0])[:100]
    coll = {norm_coll(x) for x in rates_}
    compared = set()
    for facts, evs, writes in [(a[0], a[1], a[2] if len(a) > 2 else None) for a in lp.a[1]]:
        ticked = {}
        for e, p in events(evs):
            if e.a[0] != 'atomic-swap':
                continue
            own = norm(e.a[1]).a[0]
            if own in rates_ and not p:
                ticked[own] = ticked.get(own, 0) + 1
            elif own.op == 'elem' and own.a[0] in coll and len(p) == 1 and p[0][0].a[2]:
                for x in rates_:
                    ticked[x] = ticked.get(x, 0) + (1 if p[0][1] is p[0][0].a[1] or True else 0)
        # alternatives of the inner loop exclude each other: count one per loop
        inner_loops = [e for e in evs if e.op == 'loop']
        if inner_loops:
            per = all(sum(1 for e, q in events(alt[1], 'atomic-swap')) == 1 for il in inner_loops for alt in il.a[1])
            if not per or len(inner_loops) != 1:
                return False, 'an average does not tick exactly once per interval'
        elif any(ticked.get(x, 0) != 1 for x in rates_):
            return False, 'an average does not tick exactly once per interval'
        if set(ticked) != rates_:
            return False, 'not all averages tick'
        due = None
        for a, s in facts:
            if a.op == 'int':
                d, c = lin_of(a.a[0])
                nows = [t for t in d if is_now(t)]
                rest = [t for t in d if not is_now(t)]
                if len(nows) == 1 and len(rest) == 1 and d[nows[0]] == -d[rest[0]] and abs(d[nows[0]]) == 1:
                    lo, hi = s[0][0] - c, s[-1][1] - c
                    if d[nows[0]] < 0:
                        lo, hi = -hi, -lo
                    due = (lo, hi)
                    compared.add(norm(rest[0]))
        if due is None or due[0] not in (0, 1) or due[1] != INF:
            return False, 'ticking does not depend on whether the next tick is due'
    # the next tick moves on by exactly one interval of five seconds
    step = set()

    def f(x):
        if x.op == 'rec' and x.a[0] is None:
            for fa, v in x.a[2]:
                d, c = lin_of(v)
                if d == {ME: 1}:
                    step.add(c)
                elif norm(x.a[1]) in compared:
                    step.add(show(v)[:100])
    for x in o.facts:
        for y in x.a:
            if isinstance(y, N):
                walk(y, f)
    walk(o.final(SELF), f)
    if step != {5 * SECOND}:
        return False, 'the next tick moves on by %s ns per tick' % sorted(map(str, step))
    return True, ''
