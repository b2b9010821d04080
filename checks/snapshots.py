"""P10 the snapshot tree mirrors the components, P25 descriptive parts, P21 inactivity."""
from snap import *
from processing import assignments, lin_fact, is_now, and3, not3
import driving

CONTAINERS = ('Panel', 'Cockpit', 'TelemetryProcessor', 'ProcessorMount')
FORWARDERS = ('InternalAttachedMount', 'InstrumentAdapter', 'GaugeAdapter')
LEAVES = ('Counter', 'Gauge', 'Meter', 'Histogram', 'ValueMeter', 'LastOccurrenceTracker', 'DataDisplay', 'ConstantValue', 'Flag',
          'OccurrenceIndicator', 'NonOccurrenceIndicator', 'StaircaseTimer')
ACT = ('_inactive', '_active')
DESC = ('_title', '_description')


# -------------------------------------------------------------------- layouts of all put_snapshot functions
class Layout:
    def __init__(self, o, base, top, name, asked):
        self.o, self.base, self.top, self.name, self.asked = o, base, top, name, asked
        self.named = None                        # does the component put itself into an own level
        self.inner = top
        self.bad = None


def field_type(ctx, ty, name):
    for n, t in ctx.fields(ty):
        if n == name:
            return t
    return None


def layouts(ctx, ty):
    """[Layout] of <ty as PutsSnapshot>::put_snapshot, None when undecided"""
    ck = ('layouts', ty)
    if ck in ctx._cache:
        return ctx._cache[ck]
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    outs = ctx.run(fn)
    res = None
    if outs is not None:
        res = []
        for o in outs:
            try:
                base, top = base_items(o.final(arg(1)))
            except Odd as e:
                if isinstance(e, Lost) and 'nothing else' in ctx.rules:
                    ctx.ob(False, 'nothing else', '%s|taken away' % fn['p'], '%s takes away what others have put into the snapshot (%s)' % (ty, e), fn, detail=o.show())
                else:
                    ctx.undecided.append('%s: %s' % (fn['p'], e))
                res = None
                break
            res.append(Layout(o, base, top, None, truth(o, arg(2))))
    ctx._cache[ck] = res
    return res


def items(seq):
    return [x for x in seq if x[0] == 'item']


def in_loops(seq):
    for x in seq:
        if x[0] == 'loop':
            for f, q in x[2]:
                for y in q:
                    yield x, y
                for y in in_loops(q):
                    yield y


def children(seq, path=()):
    for x in seq:
        if x[0] == 'child':
            yield x[2], path
        elif x[0] == 'loop':
            for f, q in x[2]:
                for y in children(q, path + (x[1],)):
                    yield y


def label(k):
    k = key_of(k)
    return k if isinstance(k, str) else show(k)


# -------------------------------------------------------------------- containers: common part
def inner_level(ctx, ty, rule):
    """for every path of a container: the layout of the level it writes its content to (checks naming when rule given)"""
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    ls = layouts(ctx, ty)
    if ls is None:
        return None, fn
    nm = F(SELF, 'name')
    out = []
    for l in ls:
        has = is_some(l.o, nm)
        site = '%s|level' % fn['p']
        ok = True
        if has is None:
            if rule:
                ctx.ob(False, rule, site + '|unnamed', '%s: on some path it makes no difference whether the component has a name' % ty, fn,
                       detail=fmt_facts(l.o))
            continue
        if not has:
            ok = l.base is arg(1)
            if rule:
                ctx.ob(ok, rule, site + '|flat', '%s without a name does not write into the snapshot it was given, but into %s' % (
                    ty, l.base if l.base == 'new' else show(l.base)[:100]), fn)
            inner = l.top
        else:
            its = [x for x in l.top]
            one = len(its) == 1 and its[0][0] == 'item' and l.base is arg(1)
            inner = None
            if one:
                one = norm(its[0][1]) is F(nm, 'Some.0')
                s = nested(its[0][2])
                if s is not None:
                    try:
                        b, inner = base_items(s)
                        one = one and b == 'new'
                    except Odd as e:
                        ctx.undecided.append('%s: %s' % (fn['p'], e))
                        inner = None
                else:
                    one = False
            if rule:
                ctx.ob(one, rule, site + '|named', '%s with a name must add exactly one level under its name, with everything in it; it adds: %s' % (
                    ty, '; '.join(show_seq(l.top))[:400]), fn)
            if inner is None or not one:
                continue
        if ok:
            out.append((l, has, inner))
    return out, fn


def option_duration(t):
    t = unbox(strip_refs(t))
    return t['k'] == 'adt' and tyname(t['p']) == 'Option' and t['a'][0]['k'] == 'adt' and tyname(t['a'][0]['p']) == 'Duration'


def is_instant(t):
    return t['k'] == 'adt' and tyname(t['p']) == 'Instant'


def activity(ctx, ty):
    """(limit, last, show) places of a component: maximum inactivity, last activity, flag to show the state (None: always shown)"""
    limit = F(SELF, ctx.field_by(ty, option_duration, 'inactivity limit'))
    last = F(SELF, ctx.field_by(ty, is_instant, 'last activity'))
    st = [n for n, t in ctx.fields(ty) if prim(t) == 'bool' and 'activity' in n and 'show' in n]
    return limit, last, F(SELF, st[0]) if len(st) == 1 else None


def inactive(o_facts, limit, last):
    """is the time since `last` longer than the limit (three valued)"""
    lim = F(limit, 'Some.0')

    def want(d):
        if len(d) != 3 or d.get(lim) is None or d.get(last) is None:
            return None
        r = [t for t in d if t is not lim and t is not last]
        if is_now(r[0]) and d[lim] == d[last] == -d[r[0]]:
            return d[lim]
        return None
    f = lin_fact(o_facts, want)
    if f is None:
        return None
    lo, hi = f
    if lo >= 0:
        return False
    if hi <= 0:
        return True
    return None


def is_inactive(o, limit, last):
    has = is_some(o, limit)
    if has is False:
        return False
    x = inactive(o.facts, limit, last)
    if has is None and x is not False:
        return None
    return x


# -------------------------------------------------------------------- P10
def p10(ctx):
    ctx.rule('level', 'a component with a name adds one level of its own under that name, one without writes into the level it was given')
    ctx.rule('children', 'unless inactive, everything a component holds that has something to show is asked exactly once, on its level')
    ctx.rule('nothing else', 'a component adds nothing to a snapshot but its own parts')
    ctx.rule('own key', 'an instrument writes its values under its own name only')
    ctx.rule('driver', 'the driver answers a request with everything it holds')
    for ty in CONTAINERS:
        res, fn = inner_level(ctx, ty, 'level')
        if res is None:
            continue
        limit, last, show_ = activity(ctx, ty)
        sl = slots(ctx.db, ctx.adt(ty)['p'], 'PutsSnapshot', SELF)
        ctx.ob(len(sl) > 0, 'children', '%s|slots' % ty, '%s holds nothing to show' % ty, fn)
        shown = False
        for l, has, inner in res:
            kids = list(children(inner))
            if is_inactive(l.o, limit, last) is True:
                continue
            shown = True
            check_children(ctx, ty, fn, l, inner, sl)
            foreign_items(ctx, fn, ty, inner, DESC + ACT)
        ctx.ob(shown, 'children', '%s|active' % ty, '%s shows its content on no path' % ty, fn)
        ctx.sample('%s: slots %s' % (ty, ', '.join(s.label for s in sl)))
    for ty in FORWARDERS:
        fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
        ls = layouts(ctx, ty)
        if ls is None:
            continue
        sl = slots(ctx.db, ctx.adt(ty)['p'], 'PutsSnapshot', SELF)
        if ty == 'InstrumentAdapter':
            sl = [s for s in [Slot(F(SELF, n), (), None, n) for n, t in ctx.fields(ty)] if s.label == 'instrument'] or sl
        for l in ls:
            kids = list(children(l.top))
            if kids or sl:
                check_children(ctx, ty, fn, l, l.top, sl)
            foreign_items(ctx, fn, ty, l.top, ())
            ctx.ob(l.base is arg(1), 'level', '%s|flat' % fn['p'], '%s does not write into the snapshot it was given' % ty, fn)
    polled(ctx)
    for ty in LEAVES:
        leaf_keys(ctx, ty)
    driver_reply(ctx)


def check_children(ctx, ty, fn, l, seq, sl):
    cond = ''
    check_slots(ctx, 'children', fn, l.o.ev, l.o.facts, sl, PUT, lambda e: e.a[2][-1] is arg(2) or
                truth(l.o, e.a[2][-1]) is not None and truth(l.o, e.a[2][-1]) == l.asked, ty + '::put_snapshot', cond)
    evs = {}
    for e, p in events(l.o.ev, PUT):
        k = norm(e.a[1])
        evs[k] = evs.get(k, 0) + 1
    here = {}
    for c, p in children(seq):
        k = norm(c.a[3])
        here[k] = here.get(k, 0) + 1
    for k in evs:
        ctx.ob(here.get(k, 0) > 0, 'children', '%s|%s|place' % (fn['p'], show(k)[:60]),
               '%s: what %s shows does not end up on the level of the component' % (ty, show(k)[:100]), fn)


def foreign_items(ctx, fn, ty, seq, allowed):
    for x in items(seq):
        k = key_of(x[1])
        ctx.ob(k in allowed, 'nothing else', '%s|%s' % (fn['p'], label(x[1])[:60]), '%s adds an item %s that is not its own' % (ty, label(x[1])[:80]), fn)
    for lp, y in in_loops(seq):
        if y[0] == 'item':
            ctx.ob(False, 'nothing else', '%s|loop|%s' % (fn['p'], label(y[1])[:60]), '%s adds items %s in a loop' % (ty, label(y[1])[:80]), fn)


def polled(ctx):
    ty = 'PollingInstrument'
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    ls = layouts(ctx, ty)
    if ls is None:
        return
    poll = F(SELF, 'poll')
    grp = F(SELF, [n for n, t in ctx.fields(ty) if prim(t) == 'bool'][0])
    for l in ls:
        g = truth(l.o, grp)
        its = [x for x in l.top if not (x[0] == 'item' and is_desc_key(x[1], F(SELF, 'name')))]
        site = fn['p']
        if g is None:
            ctx.ob(False, 'level', site + '|group', 'PollingInstrument: the group flag makes no difference on some path', fn)
            continue
        seq = None
        if g:
            ok = len(its) == 1 and its[0][0] == 'item' and its[0][1] is F(SELF, 'name') and nested(its[0][2]) is not None
            if ok:
                b, seq = base_items(nested(its[0][2]))
                ok = b == 'new'
            ctx.ob(ok, 'level', site + '|grouped', 'PollingInstrument: a grouped instrument must add one level under its name', fn,
                   detail='\n'.join(show_seq(l.top)))
        else:
            seq = its
        if seq is not None:
            ks = list(children(seq))
            ctx.ob(len(ks) == 1 and len(seq) == 1 and norm(ks[0][0].a[3]) is poll and len(list(events(l.o.ev, PUT))) == 1, 'children', site + '|poll',
                   'PollingInstrument must show what it polls exactly once and nothing else; it writes %s' % '; '.join(show_seq(l.top))[:300], fn)
            for k, _ in ks:
                ctx.ob(k.a[5] is arg(2) or (truth(l.o, k.a[5]) == l.asked and l.asked is not None), 'children', site + '|args',
                       'PollingInstrument does not pass on the descriptive flag', fn)


def fstr(n):
    """parts of a formatted string term: list of str and terms"""
    n = strip_owned(n)
    if n.op == 'k' and isinstance(n.a[1], str):
        return [n.a[1]]
    p = strparts(n)
    if p is None:
        return [n]
    out = []
    for x in p:
        if isinstance(x, str):
            out.append(x)
        else:
            out += fstr(x)
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return r


def strip_owned(n):
    while n.op == 'agg' and tyname(n.a[0]) == 'Cow':
        n = n.a[2][0][1]
    return n


def is_desc_key(k, name):
    p = fstr(k)
    return len(p) == 2 and p[0] in ('_title_', '_description_') and p[1] is name


def mentions_ty(t, name):
    t = unbox(strip_refs(t))
    return t['k'] == 'adt' and (tyname(t['p']) == name or any(mentions_ty(x, name) for x in t.get('a', []) if isinstance(x, dict) and 'k' in x))


def leaf_keys(ctx, ty):
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    ls = layouts(ctx, ty)
    if ls is None:
        return
    nm = F(SELF, 'name')
    alt = [F(SELF, n) for n, t in ctx.fields(ty) if mentions_ty(t, 'NameAlternation')]       # a name chosen by the user (see P16)
    direct = False
    for l in ls:
        ctx.ob(l.base is arg(1), 'own key', '%s|base' % fn['p'], '%s does not write into the snapshot it was given' % ty, fn)
        for x in l.top:
            if x[0] != 'item':
                ctx.ob(False, 'own key', '%s|%s' % (fn['p'], x[0]), '%s writes an unknown part: %s' % (ty, show_seq([x])[:3]), fn)
                continue
            p = fstr(x[1])
            ok = any(y is nm for y in p) or (alternation(p, nm)) or any(isinstance(y, N) and mentions(y, lambda n: n in alt) for y in p)
            if len(p) == 1 and p[0] is nm:
                direct = True
            ctx.ob(ok, 'own key', '%s|%s' % (fn['p'], label(x[1])[:80]), '%s writes under the key %s, which does not contain its name' % (
                ty, label(x[1])[:100]), fn)
        seen = {}
        for x in items(l.top):
            k = tuple(fstr(x[1]))
            seen[k] = seen.get(k, 0) + 1
        dup = [k for k, n in seen.items() if n > 1]
        ctx.ob(not dup, 'own key', '%s|twice' % fn['p'], '%s writes %s twice' % (ty, [str(d)[:60] for d in dup][:2]), fn)
    ctx.ob(direct, 'own key', '%s|direct' % fn['p'], '%s never shows anything under its own name' % ty, fn)


def alternation(p, nm):
    return any(isinstance(x, N) and mentions(x, lambda n: n is nm) for x in p)


# -------------------------------------------------------------------- the driver's answer
def driver_layouts(ctx, metrics, anyn=False):
    """[(kind, outcome, base, top)] of the snapshot the worker sends, for both kinds of requests; with one processor and one snapshooter
    added before, or (anyn) with any number of them"""
    ck = ('driver', metrics, anyn)
    if ck in ctx._cache:
        return ctx._cache[ck]
    A, S = driving.dmsg(ctx, 'AddProcessor', IN('p1')), driving.dmsg(ctx, 'AddSnapshooter', IN('s1'))
    res = []
    for kind in ('GetSnapshotSync', 'GetSnapshotAsync'):
        G = driving.dmsg(ctx, kind, IN('snap'), IN('tx'), IN('descriptive'))
        m = some(IN('metrics')) if metrics else None
        outs = driving.run_worker(ctx, [G] if anyn else [A, S, G], 4, driving.outcome(ctx), metrics=m, desc=IN('desc'), layout=True, anyn=anyn)
        if anyn and outs is not None and not any(mentions(e, lambda t: t is IN('procs')) for o in outs for e in o.ev):
            ctx.extra['driver snapshot'] = 'not read for any number of processors'
            outs = []
        if outs is None:
            return None
        for o in outs:
            se = driving.sends(o.ev)
            if len(se) != 1:
                continue                                   # counted by P08
            try:
                b, q = base_items(se[0].a[2][0])
            except Odd as e:
                ctx.undecided.append('%s: %s' % (driving.worker(ctx)['p'], e))
                continue
            res.append((kind, o, b, q))
    ctx._cache[ck] = res
    return res


def driver_level(ctx, rule, metrics, anyn=False):
    """[(outcome, content of the driver's level)]"""
    fn = driving.worker(ctx)
    ls = driver_layouts(ctx, metrics, anyn)
    out = []
    nm = F(IN('desc'), 'name')
    for kind, o, b, top in ls or []:
        site = '%s|%s' % (fn['p'], kind)
        if rule:
            ctx.ob(b is IN('snap'), rule, site + '|base', 'the reply is not the snapshot of the request extended, but %s' % (
                b if b == 'new' else show(b)[:100]), fn)
        has = is_some(o, nm)
        if has is None:
            if rule:
                ctx.ob(False, rule, site + '|unnamed', 'it makes no difference whether the driver has a name', fn, detail=fmt_facts(o))
            continue
        inner = top
        if has:
            okn = len(top) == 1 and top[0][0] == 'item' and top[0][1] is F(nm, 'Some.0') and nested(top[0][2]) is not None
            if okn:
                bb, inner = base_items(nested(top[0][2]))
                okn = bb == 'new'
            if rule:
                ctx.ob(okn, rule, site + '|named', 'a driver with a name must answer with exactly one level under its name: %s' % '; '.join(show_seq(top))[:300], fn)
            if not okn:
                continue
        out.append((kind, o, inner))
    return out, fn


def driver_reply(ctx):
    for metrics, anyn in ((False, False), (True, False), (False, True), (True, True)):
        lv, fn = driver_level(ctx, 'driver', metrics, anyn)
        ctx.ob(bool(lv) or anyn, 'driver', '%s|%s' % (fn['p'], metrics), 'the driver answers no request', fn)
        for kind, o, inner in lv:
            site = '%s|%s|%s' % (fn['p'], kind, metrics)
            rest = []
            names = []
            for x in inner:
                if x[0] == 'item':
                    k = key_of(x[1])
                    if k not in DESC and not (metrics and k == '_metrix'):
                        rest.append(label(x[1]))
                    elif k == '_metrix':
                        names.append('metrics')
                elif x[0] == 'child':
                    r = norm(x[2].a[3])
                    names.append('p1' if r is IN('p1') else 's1' if r is IN('s1') else 'metrics' if mentions(r, lambda t: t is IN('metrics')) else show(r)[:60])
                    ctx.ob(x[2].a[5] is IN('descriptive') or truth(o, x[2].a[5]) is not None and truth(o, x[2].a[5]) is truth(o, IN('descriptive')),
                           'driver', site + '|flag', 'the descriptive flag of the request does not reach %s' % names[-1], fn)
                elif x[1] is not None and norm(x[1]) in (IN('procs'), IN('shooters')):
                    el = mk('elem', norm(x[1]))
                    good = all(len(q) == 1 and q[0][0] == 'child' and norm(q[0][2].a[3]) is el for _, q in x[2])
                    ctx.ob(good, 'driver', site + '|each', 'not every %s is shown exactly once' % show(el), fn, detail='\n'.join(show_seq([x])))
                    for _, q in x[2]:
                        for c, _p in children(q):
                            ctx.ob(c.a[5] is IN('descriptive') or truth(o, c.a[5]) is not None and truth(o, c.a[5]) is truth(o, IN('descriptive')),
                                   'driver', site + '|flag', 'the descriptive flag of the request does not reach each of %s' % show(x[1]), fn)
                    lps = [lp for lp in loops(o.ev) if lp.a[0] is not None and norm(lp.a[0]) is norm(x[1]) and any(True for _ in events((lp,), PUT))]
                    ctx.ob(len(lps) == 1 and lps[0].a[2], 'driver', site + '|total', 'not every %s is shown in an answer' % show(el), fn)
                    names.append(show(norm(x[1])))
                else:
                    rest.append('a loop over ' + (show(x[1])[:100] if x[1] is not None else 'something'))
            ctx.ob(not rest, 'driver', site + '|foreign', 'the answer contains %s' % ', '.join(rest)[:200], fn)
            want = (['procs', 'shooters'] if anyn else ['p1', 's1']) + (['metrics'] if metrics else [])
            ctx.ob(sorted(names) == sorted(want), 'driver', site + '|content', 'the answer shows %s instead of each of %s once' % (
                ', '.join(names) or 'nothing', ', '.join(want)), fn, detail=o.show())
    # a driver shown inside something else
    driver_asks(ctx, 'driver')
    fn = ctx.trait_fn('TelemetryDriver', 'PutsSnapshot', 'put_snapshot')
    ls = layouts(ctx, 'TelemetryDriver')
    for l in ls or []:
        site = fn['p']
        ctx.ob(l.base is arg(1), 'driver', site + '|base', 'a driver does not write into the snapshot it was given', fn)
        rv = [e for e, _ in events(l.o.ev) if e.a[0].split('::')[-1].startswith('recv')]
        ok_ = [truth_ok(l.o, e.a[3]) for e in rv]
        if True in ok_:
            got = F(rv[ok_.index(True)].a[3], 'Ok.0')
            el = mk('elem', F(got, 'items'))
            good = len(l.top) == 1 and l.top[0][0] == 'loop' and norm(l.top[0][1]) is F(got, 'items') and all(
                len(q) == 1 and q[0][0] == 'item' and q[0][1] is F(el, '0') and q[0][2] is F(el, '1') for _, q in l.top[0][2])
            ctx.ob(good, 'driver', site + '|all', 'a driver shown inside a snapshot must add each item of its own snapshot unchanged, it adds: %s' %
                   '; '.join(show_seq(l.top))[:300], fn)
            lps = [x for x in loops(l.o.ev)]
            ctx.ob(all(x.a[2] for x in lps), 'driver', site + '|total', 'not all items of the driver\'s snapshot are added', fn)
        elif False in ok_:
            ctx.ob(not l.top, 'driver', site + '|none', 'a driver that does not answer adds %s' % '; '.join(show_seq(l.top))[:200], fn)
    ctx.ob(any(truth_ok(l.o, e.a[3]) for l in ls or [] for e, _ in events(l.o.ev) if e.a[0].split('::')[-1].startswith('recv')) or ls is None, 'driver',
           fn['p'] + '|asks', 'a driver shown inside a snapshot does not ask its worker', fn)


def driver_asks(ctx, rule):
    """a driver shown inside something else asks its worker once, with the flag it was given"""
    fn = ctx.trait_fn('TelemetryDriver', 'PutsSnapshot', 'put_snapshot')
    d = arg(2)
    for o in ctx.run(fn) or ():
        se = [e for e, _ in events(o.ev) if e.a[0].split('::')[-1] in ('send', 'try_send')]
        ctx.ob(len(se) == 1, rule, fn['p'] + '|asks', 'a driver shown inside a snapshot asks its worker %d times' % len(se), fn, detail=o.show())
        for e in se:
            m = e.a[2][0]
            if m.op != 'agg' or not m.a[2]:
                continue
            v = m.a[2][-1][1]
            t = truth(o, d)
            ctx.ob(v is d or t is not None and v is (TRUE if t else FALSE), rule, fn['p'] + '|flag',
                   'a driver shown inside a snapshot asks its worker with descriptive = %s instead of the flag it was given' % show(v)[:80], fn, detail=o.show())


def truth_ok(o, r):
    if r.op == 'agg':
        return r.a[1] == 'Ok'
    s = o.facts.get(mk('disc', r, frozenset(('Ok', 'Err'))))
    return None if s is None or len(s) != 1 else 'Ok' in s


# -------------------------------------------------------------------- P25
def getter_field(ctx, ty, method):
    """the Option<String> field title()/description() of ty reads"""
    fn = ctx.trait_fn(ty, 'Descriptive', method)
    outs = ctx.run(fn)
    r = None
    for o in outs or []:
        v = o.ret
        if v.op == 'agg' and v.a[1] == 'Some':
            x = norm(v.a[2][0][1])
            if x.op == 'f' and x.a[1] == 'Some.0':
                r = x.a[0]
    return r


def has_key(facts, base, key):
    """do the facts say that base.items has an element with this key (three valued)"""
    if base == 'new':
        return False
    coll = F(base, 'items')
    for a, s in facts.items():
        if a.op == 'exists' and norm(a.a[0]) is norm(coll) and len(s) == 1:
            ass = assignments(a.a[1])
            if ass is None:
                continue
            at, sat = as_test(cmp_eq(F(mk('elem', a.a[0]), '0'), key))
            good = True
            for r, covered in ass:
                e = r.get(at)
                eq = None if e is None else True if inter(e, sat) == e else False if not inter(e, sat) else None
                if eq is not (not covered):
                    good = False
            if good:
                return True in s
    return None


def desc_items(ctx, rule, fn, ty, o, asked, base, seq, title, description, keyt, keyd, site, empty=False):
    """title and description must be there exactly when asked for, known and not there yet; `empty`: nothing is there unless the
    facts say so (requests carry an empty snapshot, which P09 checks)"""
    for what, fld, key in (('title', title, keyt), ('description', description, keyd)):
        mine = [x for x in items(seq) if same_key(x[1], key)]
        have = is_some(o, fld)
        there = has_key(o.facts, base, key)
        if there is None and empty:
            there = False
        want = and3(asked, have, not3(there))
        if want is None:
            ctx.ob(False, rule, '%s|%s|cond' % (site, what), '%s: whether the %s is shown does not depend on %s on some path' % (
                ty, what, 'being asked' if asked is None else 'whether there is one' if have is None else 'whether one is already there'), fn,
                detail=fmt_facts(o))
        elif want:
            ctx.ob(len(mine) == 1, rule, '%s|%s|shown' % (site, what), '%s: the %s is added %d times when asked for' % (ty, what, len(mine)), fn,
                   detail=fmt_facts(o))
            for x in mine:
                v = x[2]
                good = v.op == 'agg' and v.a[1] == 'Text' and norm(v.a[2][0][1]) is F(fld, 'Some.0')
                ctx.ob(good, rule, '%s|%s|text' % (site, what), '%s: the %s shown is %s' % (ty, what, show(v)[:100]), fn)
        else:
            ctx.ob(not mine, rule, '%s|%s|hidden' % (site, what), '%s: the %s is shown although %s' % (
                ty, what, 'not asked for' if asked is False else 'there is none' if have is False else 'there already is one'), fn, detail=fmt_facts(o))


def same_key(a, b):
    return fstr(a) == fstr(b)


def fstring(parts):
    return mk('str', tuple(parts))


def p25(ctx):
    ctx.rule('descriptive', 'titles and descriptions appear exactly when asked for, if there are any and none is there yet, with the right text')
    ctx.rule('flag', 'the descriptive flag is passed on unchanged')
    driver_asks(ctx, 'flag')
    for ty in CONTAINERS:
        res, fn = inner_level(ctx, ty, None)
        t, d = getter_field(ctx, ty, 'title'), getter_field(ctx, ty, 'description')
        if t is None or d is None:
            raise Missing('title/description of ' + ty)
        for l, has, inner in res or []:
            desc_items(ctx, 'descriptive', fn, ty, l.o, l.asked, 'new' if has else arg(1), inner, t, d, kstr('_title'), kstr('_description'), fn['p'])
            for c, _ in children(inner):
                ctx.ob(c.a[5] is arg(2) or l.asked is not None and truth(l.o, c.a[5]) is l.asked, 'flag', '%s|%s' % (fn['p'], show(norm(c.a[3]))[:60]),
                       '%s does not pass the descriptive flag on to %s' % (ty, show(norm(c.a[3]))[:80]), fn)
    for ty in LEAVES + ('PollingInstrument',):
        fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
        try:
            t, d = getter_field(ctx, ty, 'title'), getter_field(ctx, ty, 'description')
        except Missing:
            ctx.undecided.append('%s has no title()/description()' % ty)
            continue
        if t is None or d is None:
            raise Missing('title/description of ' + ty)
        nm = F(SELF, 'name')
        for l in layouts(ctx, ty) or []:
            desc_items(ctx, 'descriptive', fn, ty, l.o, l.asked, l.base, l.top, t, d,
                       fstring(['_title_', nm]), fstring(['_description_', nm]), fn['p'])
            for c, _ in children_deep(l.top):
                ctx.ob(c.a[5] is arg(2) or l.asked is not None and truth(l.o, c.a[5]) is l.asked, 'flag', '%s|%s' % (fn['p'], show(norm(c.a[3]))[:60]),
                       '%s does not pass the descriptive flag on' % ty, fn)
    for ty in FORWARDERS:
        fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
        for l in layouts(ctx, ty) or []:
            for c, _ in children(l.top):
                ctx.ob(c.a[5] is arg(2) or l.asked is not None and truth(l.o, c.a[5]) is l.asked, 'flag', '%s|%s' % (fn['p'], show(norm(c.a[3]))[:60]),
                       '%s does not pass the descriptive flag on' % ty, fn)
    for metrics in (False, True):
        lv, fn = driver_level(ctx, None, metrics)
        for kind, o, inner in lv:
            named = is_some(o, F(IN('desc'), 'name'))
            desc_items(ctx, 'descriptive', fn, 'the driver', o, truth(o, IN('descriptive')), 'new' if named else IN('snap'), inner,
                       F(IN('desc'), 'title'), F(IN('desc'), 'description'), kstr('_title'), kstr('_description'), '%s|%s' % (fn['p'], kind), empty=True)
            for x in inner:
                if x[0] == 'child':
                    ctx.ob(x[2].a[5] is IN('descriptive') or truth(o, x[2].a[5]) is not None and truth(o, x[2].a[5]) is truth(o, IN('descriptive')),
                           'flag', fn['p'] + '|' + kind, 'the descriptive flag of the request is not passed on', fn)
    # every getter reads its own field
    for ty in CONTAINERS + LEAVES + ('PollingInstrument',):
        try:
            t, d = getter_field(ctx, ty, 'title'), getter_field(ctx, ty, 'description')
        except Missing:
            continue
        for fld, w, meth in ((t, 'title', 'set_title'), (d, 'description', 'set_description')):
            ctx.ob(fld is not None and fld is F(SELF, w), 'descriptive', '%s|%s|getter' % (ty, w), '%s() of %s reads %s' % (w, ty, show(fld)), None)


def children_deep(seq):
    for c in children(seq):
        yield c
    for x in seq:
        if x[0] == 'item' and nested(x[2]) is not None:
            try:
                b, q = base_items(nested(x[2]))
            except Odd:
                continue
            for c in children_deep(q):
                yield c


# -------------------------------------------------------------------- P21
def p21(ctx):
    ctx.rule('limit', 'without an inactivity limit everything is shown and nothing is said about activity')
    ctx.rule('inactive', 'a component inactive for longer than its limit shows no values, an active one does')
    ctx.rule('state', 'the activity items say what is the case, and appear exactly when wanted')
    ctx.rule('refresh', 'everything that counts as activity sets the time of last activity to the present')
    for ty in CONTAINERS:
        res, fn = inner_level(ctx, ty, None)
        limit, last, show_ = activity(ctx, ty)
        for l, has, inner in res or []:
            shown = [x for x in inner if x[0] in ('child', 'loop') and any(True for _ in children([x]))]
            other = [x for x in items(inner) if key_of(x[1]) not in ACT + DESC]
            judge_activity(ctx, fn, ty, l.o, limit, last, show_, inner, bool(shown or other), len(slots(ctx.db, ctx.adt(ty)['p'], 'PutsSnapshot', SELF)) > 0)
    histogram_state(ctx)
    refresh(ctx)


def judge_activity(ctx, fn, ty, o, limit, last, show_, inner, shown, must_show):
    site = fn['p']
    lim = is_some(o, limit)
    acts = [x for x in items(inner) if key_of(x[1]) in ACT]
    if lim is None:
        ctx.ob(False, 'limit', site + '|any', '%s: on some path the inactivity limit makes no difference' % ty, fn, detail=fmt_facts(o))
        return
    if not lim:
        ctx.ob(not acts, 'limit', site + '|none', '%s without an inactivity limit shows %s' % (ty, ', '.join(label(x[1]) for x in acts)), fn)
        ctx.ob(shown or not must_show, 'limit', site + '|shown', '%s without an inactivity limit shows nothing' % ty, fn,
               detail=fmt_facts(o))
        return
    ina = inactive(o.facts, limit, last)
    if ina is None:
        ctx.ob(False, 'inactive', site + '|any', '%s: with a limit, the time since the last activity makes no difference on some path' % ty, fn,
               detail=fmt_facts(o))
        return
    if ina:
        ctx.ob(not shown, 'inactive', site + '|hidden', '%s shows values although it was inactive for longer than its limit' % ty, fn, detail=fmt_facts(o))
    else:
        ctx.ob(shown or not must_show, 'inactive', site + '|shown', '%s shows no values although it is active' % ty, fn, detail=fmt_facts(o))
    want = True if show_ is None else truth(o, show_)
    if want is None:
        ctx.ob(False, 'state', site + '|any', '%s: whether the activity state is to be shown makes no difference on some path' % ty, fn, detail=fmt_facts(o))
        return
    for key in ACT:
        mine = [x for x in acts if key_of(x[1]) == key]
        ctx.ob(len(mine) == (1 if want else 0), 'state', '%s|%s' % (site, key), '%s shows %s %d times although the state is%s to be shown' % (
            ty, key, len(mine), '' if want else ' not'), fn, detail=fmt_facts(o))
        for x in mine:
            v = x[2]
            b = truth(o, v.a[2][0][1]) if v.op == 'agg' and v.a[1] == 'Boolean' else None
            ctx.ob(b is (ina if key == '_inactive' else not ina), 'state', '%s|%s|value' % (site, key), '%s shows %s = %s while it is %s' % (
                ty, key, show(v)[:60], 'inactive' if ina else 'active'), fn, detail=fmt_facts(o))


def histogram_state(ctx):
    ty = 'Histogram'
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    limit, last, show_ = activity(ctx, ty)
    for l in layouts(ctx, ty) or []:
        own = [x for x in items(l.top) if x[1] is F(SELF, 'name') and nested(x[2]) is not None]
        if not ctx.ob(len(own) == 1, 'inactive', fn['p'] + '|level', 'Histogram does not show its level', fn):
            continue
        b, q = base_items(nested(own[0][2]))
        vals = [x for x in q if not (x[0] == 'item' and key_of(x[1]) in ACT)]
        judge_activity(ctx, fn, ty, l.o, limit, last, show_, q, bool(vals), True)


def refresh(ctx):
    # panel and cockpit
    for ty in ('Panel', 'Cockpit'):
        fn = ctx.trait_fn(ty, 'HandlesObservations', 'handle_observation')
        limit, last, show_ = activity(ctx, ty)
        for o in ctx.run(fn) or []:
            acc = [truth(o, e.a[3]) for e, _ in events(o.ev, 'LabelFilter::accepts')]
            v = F(o.final(SELF), last.a[1])
            if ty == 'Panel' and False in acc:
                ctx.ob(v is last, 'refresh', fn['p'] + '|rejected', 'a rejected observation changes the time of last activity of a panel', fn)
            elif ty == 'Panel' and True not in acc:
                ctx.ob(False, 'refresh', fn['p'] + '|unknown', 'a panel does not ask its label filter on some path', fn)
            else:
                ctx.ob(is_now(v), 'refresh', fn['p'] + '|accepted', '%s: an observation it takes leaves the time of last activity at %s' % (
                    ty, show(v)[:100]), fn, detail=fmt_facts(o))
    histogram_refresh(ctx)


def histogram_refresh(ctx):
    ty = 'Histogram'
    fn = ctx.trait_fn(ty, 'Updates', 'update')
    limit, last, show_ = activity(ctx, ty)
    rs = [n for n, t in ctx.fields(ty) if prim(t) == 'bool' and 'reset' in n]
    if len(rs) != 1:
        raise Missing('reset flag of Histogram')
    reset = F(SELF, rs[0])
    inner = F(SELF, [n for n, t in ctx.fields(ty) if is_adt(t, 'ExponentialDecayHistogram')][0])
    for o in ctx.run(fn) or []:
        ups = [e for e, _ in events(o.ev) if e.a[0] == 'ExponentialDecayHistogram::update']
        v = F(o.final(SELF), last.a[1])
        site = fn['p']
        if ups:
            ctx.ob(is_now(v), 'refresh', site + '|recorded', 'Histogram: recording a value leaves the time of last activity at %s' % show(v)[:100], fn,
                   detail=fmt_facts(o))
        else:
            ctx.ob(v is last, 'refresh', site + '|nothing', 'Histogram: an update without a value changes the time of last activity', fn)
        want = and3(is_some(o, limit), truth(o, reset), inactive(o.facts, limit, last))
        x = F(o.final(SELF), inner.a[1])
        fresh = any(c.a[0].startswith('ExponentialDecayHistogram::new') for c in calls(x))
        if want is None:
            ctx.ob(not fresh, 'refresh', site + '|reset-any', 'Histogram forgets its values without having looked at limit, flag and time', fn, detail=fmt_facts(o))
            if ups:
                ctx.ob(False, 'refresh', site + '|reset-none', 'Histogram: on some path it makes no difference whether it was inactive and has to be reset', fn,
                       detail=fmt_facts(o))
        elif want:
            ctx.ob(fresh or not ups, 'refresh', site + '|reset', 'Histogram keeps its old values although it was inactive and has to be reset', fn, detail=fmt_facts(o))
        else:
            ctx.ob(not fresh, 'refresh', site + '|kept', 'Histogram forgets its values although it %s' % (
                'has no limit' if is_some(o, limit) is False else 'must not be reset' if truth(o, reset) is False else 'was not inactive'), fn, detail=fmt_facts(o))
