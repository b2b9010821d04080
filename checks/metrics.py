"""P11 the driver's metrics about itself."""
from snap import *
from processing import lin_fact, is_now
import driving

UPD = 'Updates::update'
TABLE = {
    'collections_per_second': ('one', None),
    'collection_times_us': ('time', None),
    'observations_processed_per_second': ('n', 'processed'),
    'observations_processed_per_collection': ('value', 'processed'),
    'observations_enqueued': ('value', None, 'observations_enqueued'),
    'observations_dropped_per_second': ('n', 'dropped'),
    'observations_dropped_per_collection': ('value', 'dropped'),
    'dropped_observations_alarm': ('one', 'dropped'),
    'instruments_updated_per_second': ('n', 'instruments_updated'),
    'inactivity_alarm': ('one', None),
    'snapshots_per_second': ('snap one', None),
    'snapshots_times_us': ('snap time', None),
    'iteration_update_ratio_per_mille': ('ratio', None),
    'iteration_update_ratio_per_mille_histo': ('ratio', None),
}


def instrument_fields(ctx):
    """key in the snapshot -> (field, initial value) of the driver's instruments"""
    fn = ctx.trait_fn('DriverInstruments', 'Default', 'default')
    out = {}
    for o in ctx.run(fn) or []:
        for n, _ in ctx.fields('DriverInstruments'):
            v = F(o.ret, n)
            nm = key_of(F(v, 'name'))
            if isinstance(nm, str):
                ctx.ob(nm not in out or out[nm][0] == n, 'show', '%s|%s|distinct' % (fn['p'], nm), 'two of the driver\'s instruments are called %s' % nm, fn)
                out[nm] = (n, v)
            else:
                ctx.ob(False, 'show', '%s|%s|named' % (fn['p'], n), 'the instrument %s of the driver has no fixed name: %s' % (n, show(nm)[:80]), fn)
    return out, fn


def p11(ctx):
    ctx.rule('collect', 'each run is reported once: counts and sums of all processors\' outcomes, to the instruments named for them')
    ctx.rule('snapshots', 'each answered snapshot request is counted and timed once')
    ctx.rule('ratio', 'the run ratio is the share of an iteration spent in processing')
    ctx.rule('show', 'every instrument of the driver is shown once, under `_metrix`')
    flds, dfn = instrument_fields(ctx)
    byfield = {f: k for k, (f, v) in flds.items()}
    for k in TABLE:
        ctx.ob(k in flds, 'show', '%s|%s|there' % (dfn['p'], k), 'the driver has no metric %s' % k, dfn)
    for k in flds:
        if k not in TABLE:
            ctx.extra.setdefault('metrics not specified', []).append(k)
        v = flds[k][1]
        if v.op == 'agg' and k.endswith('_us') and tyname(v.a[0]) == 'Histogram':
            u = F(v, 'display_time_unit')
            ctx.ob(u.op == 'agg' and u.a[1] == 'Microseconds', 'show', '%s|%s|unit' % (dfn['p'], k), '%s is not shown in microseconds but %s' % (k, show(u)), dfn)
        if v.op == 'agg' and k.endswith('_alarm'):
            for n, t in ctx.fields(tyname(v.a[0])):
                if is_adt(t, 'Duration'):
                    ctx.ob(F(v, n) is kint(60 * 10 ** 9), 'show', '%s|%s|%s' % (dfn['p'], k, n), '%s lasts %s by default instead of 60 seconds' % (k, show(F(v, n))), dfn)
    runs(ctx, flds, byfield)
    answers(ctx, flds, byfield)
    level(ctx, byfield)


def field_of(recv):
    r = norm(recv)
    if r.op == 'f' and mentions(r, lambda t: t is IN('metrics')):
        return r.a[1]
    return None


def updates(seg, byfield):
    out = {}
    other = []
    for e, p in events(seg, UPD):
        f = field_of(e.a[1])
        k = byfield.get(f)
        if k is None:
            other.append(e)
        out.setdefault(k, []).append((e, p))
    return out, other


def upd(e):
    """(kind, number or value, timestamp)"""
    u = e.a[2][0]
    if u.op != 'agg':
        return None, None, None
    v = [x for _, x in u.a[2]]
    if u.a[1] == 'Observation':
        return 'Observation', None, v[0]
    return u.a[1], v[0], v[1]


def positive(o, s):
    """is the sum greater than zero (three valued)"""
    d0, c0 = lin_of(s)
    if not d0:
        return c0 > 0

    def want(d):
        for k in (1, -1):
            if d == {t: k * x for t, x in d0.items()}:
                return k
        return None
    f = lin_fact(o.facts, want)
    if f is None:
        # all parts known to be 0
        hi = 0
        for t, k in d0.items():
            r = o.facts.get(mk('int', t))
            if r is None:
                return None
            hi += k * r[-1][1]
        return False if hi + c0 <= 0 else None
    lo, hi = f[0] + c0, f[1] + c0
    return True if lo >= 1 else False if hi <= 0 else None


def timespan(v):
    """(start, end) clock readings of ObservedValue::Duration(end - start, ns), or None"""
    if v.op != 'agg' or v.a[1] != 'Duration':
        return None
    t, u = v.a[2][0][1], v.a[2][1][1]
    if not (u.op == 'agg' and u.a[1] == 'Nanoseconds'):
        return None
    return span(t)


def span(t):
    d, c = lin_of(t)
    if c or len(d) != 2 or sorted(d.values()) != [-1, 1] or not all(is_now(x) for x in d):
        return None
    a = [x for x in d if d[x] == -1][0]
    b = [x for x in d if d[x] == 1][0]
    return a, b


def plain(v):
    """the number inside an ObservedValue"""
    if v.op == 'agg' and v.a[1] in ('UnsignedInteger', 'SignedInteger'):
        return uncast(v.a[2][0][1])
    return None


def uncast(x):
    while x.op == 'app' and x.a[0] in ('cast:u64', 'cast:usize', 'cast:i64', 'cast:isize', 'cast:u128', 'cast:i128'):
        x = x.a[1]
    return x


def runs(ctx, flds, byfield):
    fn = driving.worker(ctx)
    p, q = IN('p1'), IN('p2')
    msgs = [driving.dmsg(ctx, 'AddProcessor', p), driving.dmsg(ctx, 'AddProcessor', q), driving.dmsg(ctx, 'Pause')]
    res = lambda r: IN('outcome_' + r.a[0]) if r.op == 'in' else IN('outcome')
    scen = [('one', msgs[:1], 1), ('two', msgs[:2], 2), ('paused', [msgs[0], msgs[2]], 2)]
    for name, ms, n in scen:
        outs = driving.run_worker(ctx, ms, n, res, metrics=some(IN('metrics')), clock=True)
        for o in outs or []:
            segs = driving.rounds(o)[:n]
            for k, seg in enumerate(segs):
                if name == 'two' and k == 0:
                    continue                                   # is 'one'
                judge_run(ctx, fn, '%s|%s|%d' % (fn['p'], name, k), o, seg, byfield, flds)


def judge_run(ctx, fn, site, o, seg, byfield, flds):
    ups, other = updates(seg, byfield)
    procs = driving.evs(seg, driving.PROC)
    for e in other:
        ctx.ob(False, 'collect', site + '|other', 'something else than the driver\'s metrics is updated: %s' % show_ev(e)[:200], fn)
    if not procs:
        got = [k for k in ups]
        ctx.ob(not [k for k in got if k not in ('snapshots_per_second', 'snapshots_times_us')], 'collect', site + '|idle',
               'without processing anything %s is updated' % ', '.join(map(str, got))[:200], fn, detail=o.show())
        return
    outcomes = [e.a[3] for e in procs]
    when = {e.a[3]: i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == 'clock'}
    first, last = [[i for i, e in enumerate(seg) if any(x is y for x, _ in events([e], driving.PROC) for y in procs)][j] for j in (0, -1)]
    taken = max([i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == 'recv'] or [-1])
    asleep = [i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0].endswith('::sleep')]

    def is_run(sp):
        """from after the message was taken to after the last processor"""
        return sp is not None and taken < when.get(sp[0], -1) < first and when.get(sp[1], -1) > last and not any(i < when[sp[1]] for i in asleep)

    def is_round(sp):
        return sp is not None and 0 <= when.get(sp[0], -1) and (taken < 0 or when[sp[0]] < taken) and when.get(sp[1], -1) > max([last] + asleep)
    ratio = []
    for key, spec in TABLE.items():
        if key not in flds:
            continue
        kind, cond = spec[0], spec[1]
        mine = ups.get(key, [])
        if kind.startswith('snap'):
            ctx.ob(not mine, 'snapshots', '%s|%s' % (site, key), '%s is updated without a snapshot' % key, fn, detail=o.show())
            continue
        if kind == 'ratio':
            ctx.ob(len(mine) <= 1, 'ratio', '%s|%s|once' % (site, key), '%s is updated %d times in an iteration' % (key, len(mine)), fn, detail=o.show())
            ratio.append((key, [e for e, _ in mine]))
            continue
        fld = spec[2] if len(spec) > 2 else cond
        total = None
        if fld is not None:
            total = kint(0)
            for x in outcomes:
                total = add(total, F(x, fld))
        want = True if cond is None else positive(o, total)
        if want is None and kind == 'n':
            want = True                                        # without a condition: counting nothing is nothing
        if want is None:
            ctx.ob(False, 'collect', '%s|%s|any' % (site, key), '%s: on some path it makes no difference whether anything was %s' % (
                key, cond), fn, detail=o.show())
            continue
        if want is False and kind == 'n' and mine:
            want = True                                        # 0 are counted
        ctx.ob(len(mine) == (1 if want else 0) and not any(p for _, p in mine), 'collect', '%s|%s|once' % (site, key),
               '%s is updated %d times after a run%s' % (key, len(mine), '' if cond is None else ' in which %s were %s' % ('some' if want else 'none', cond)), fn,
               detail=o.show())
        for e, _ in mine:
            kd, v, ts = upd(e)
            ctx.ob(ts is not None and is_now(ts), 'collect', '%s|%s|stamp' % (site, key), '%s is not updated for the present but for %s' % (
                key, show(ts)[:80] if ts is not None else '?'), fn)
            if kind == 'one':
                good = kd == 'Observation' or kd == 'Observations' and v is kint(1)
            elif kind == 'n':
                good = kd == 'Observations' and uncast(v) is total
            elif kind == 'value':
                good = kd == 'ObservationWithValue' and plain(v) is total
            else:
                sp = timespan(v) if kd == 'ObservationWithValue' else None
                good = is_run(sp)
            ctx.ob(good, 'collect', '%s|%s|what' % (site, key), '%s is given %s%s' % (
                key, show(e.a[2][0])[:160], ' instead of %s' % show(total)[:120] if total is not None else ''), fn)
    # ratio
    if any(es for _, es in ratio):
        vals = [es[0].a[2][0] for _, es in ratio if es]
        ctx.ob(all(len(es) == 1 for _, es in ratio), 'ratio', site + '|both', 'only some of the run ratio metrics are updated: %s' % ', '.join(
            k for k, es in ratio if es), fn)
        for (k, es) in ratio:
            for e in es:
                kd, v, ts = upd(e)
                ctx.ob(kd == 'ObservationWithValue' and per_mille(v, is_run, is_round), 'ratio', '%s|%s|what' % (site, k), '%s is given %s' % (k, show(e.a[2][0])[:200]), fn)


def per_mille(v, is_run, is_round):
    x = plain(v)
    if x is None or not (x.op == 'app' and x.a[0] in ('f2i:u64', 'f2i:i64', 'f2i:u32', 'f2i:i32', 'f2i:u16', 'f2i:usize')):
        return False
    y = x.a[1]
    num = k = None
    if y.op == 'app' and y.a[0] == 'fmul':
        for a, b in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
            if b.op == 'k' and float(b.a[1]) == 1000.0:
                num = a
    if num is None or not (num.op == 'app' and num.a[0] == 'fdiv'):
        return False
    s = [secs(z) for z in num.a[1:3]]
    if None in s:
        return False
    return is_run(s[0]) and is_round(s[1])


def secs(z):
    if z.op in ('app', 'call') and str(z.a[0]).startswith('Duration::as_secs_f'):
        return span(z.a[-1])
    return None


def answers(ctx, flds, byfield):
    fn = driving.worker(ctx)
    A = driving.dmsg(ctx, 'AddProcessor', IN('p1'))
    for kind in ('GetSnapshotSync', 'GetSnapshotAsync'):
        G = driving.dmsg(ctx, kind, IN('snap'), IN('tx'), IN('descriptive'))
        outs = driving.run_worker(ctx, [A, driving.dmsg(ctx, 'Pause'), G], 3, driving.outcome(ctx), metrics=some(IN('metrics')), clock=True)
        for o in outs or []:
            seg = driving.rounds(o)[2]
            when = {e.a[3]: i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == 'clock'}
            taken = max([i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == 'recv'] or [-1])
            puts = [i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == driving.PUT and e.a[1].op == 'in'] or [taken + 1]
            ups, other = updates(seg, byfield)
            for key, k in (('snapshots_per_second', 'one'), ('snapshots_times_us', 'time')):
                if key not in flds:
                    continue
                mine = ups.get(key, [])
                site = '%s|%s|%s' % (fn['p'], kind, key)
                ctx.ob(len(mine) == 1, 'snapshots', site, '%s is updated %d times for one answered request' % (key, len(mine)), fn, detail=o.show())
                for e, _ in mine:
                    kd, v, ts = upd(e)
                    if k == 'one':
                        good = kd == 'Observation' or kd == 'Observations' and v is kint(1)
                    else:
                        sp = timespan(v) if kd == 'ObservationWithValue' else None
                        good = sp is not None and taken < when.get(sp[0], -1) <= puts[0] and when.get(sp[1], -1) > puts[-1]
                    ctx.ob(good and is_now(ts), 'snapshots', site + '|what', '%s is given %s' % (key, show(e.a[2][0])[:160]), fn)


def level(ctx, byfield):
    """the level `_metrix` of an answer"""
    fn = driving.worker(ctx)
    G = driving.dmsg(ctx, 'GetSnapshotSync', IN('snap'), IN('tx'), IN('descriptive'))
    outs = driving.run_worker(ctx, [driving.dmsg(ctx, 'Pause'), G], 2, driving.outcome(ctx), metrics=some(IN('metrics')), layout=True, inline=True)
    want = sorted(n for n, t in ctx.fields('DriverInstruments') if holds(ctx.db, t, 'PutsSnapshot'))
    for o in outs or []:
        se = driving.sends(o.ev)
        if len(se) != 1:
            continue
        try:
            b, top = base_items(se[0].a[2][0])
        except Odd as e:
            ctx.undecided.append('driver snapshot: %s' % e)
            continue
        ms = [x for x in items(top) if key_of(x[1]) == '_metrix' and nested(x[2]) is not None]
        site = fn['p'] + '|_metrix'
        if not ctx.ob(len(ms) == 1, 'show', site, 'the driver\'s metrics appear %d times under `_metrix`' % len(ms), fn, detail='\n'.join(show_seq(top))):
            continue
        b, q = base_items(nested(ms[0][2]))
        got = []
        for x in q:
            f = field_of(x[2].a[3]) if x[0] == 'child' else None
            got.append(f if f is not None else '?')
            if x[0] == 'child':
                ctx.ob(x[2].a[5] is IN('descriptive') or truth(o, x[2].a[5]) is not None and truth(o, x[2].a[5]) is truth(o, IN('descriptive')), 'show',
                       site + '|flag', 'the descriptive flag does not reach the driver\'s metrics', fn)
        ctx.ob(b == 'new' and sorted(got) == want, 'show', site + '|each', 'the driver shows %s instead of each of its instruments once' % (
            ', '.join(sorted(set(got) ^ set(want)) or [g for g in got if got.count(g) > 1])[:300]), fn, detail='\n'.join(show_seq(q)))


def items(seq):
    return [x for x in seq if x[0] == 'item']
