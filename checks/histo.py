"""P15: histograms."""
from instr import *
from snapshots import activity, is_inactive
from processing import and3

HIST = 'ExponentialDecayHistogram'
PLAIN = {'count': 'UInt', 'max': 'Int', 'min': 'Int', 'mean': 'Float', 'stddev': 'Float'}
QUANT = ('p25', 'p50', 'p75', 'p95', 'p98', 'p99', 'p999')


def p15(ctx):
    ctx.rule('record', 'each value that fits is recorded exactly once, as it is, and nothing else is')
    ctx.rule('updated', 'an update reports 1 if its value was recorded, else 0')
    ctx.rule('else', 'an update changes nothing but the values and the time of the last activity')
    ctx.rule('kept', 'recorded values are dropped exactly by an update after an inactivity beyond the limit, if enabled')
    ctx.rule('wired', 'each figure is shown under its own name, taken from one snapshot of the recorded values')
    ctx.rule('empty', 'without values only a count of zero is shown')
    ty = 'Histogram'
    hf = [f for f, t in ctx.fields(ty) if mentions_adt(t, HIST)]
    uf = [f for f, t in ctx.fields(ty) if mentions_adt(t, 'TimeUnit')]
    tf = [f for f, t in ctx.fields(ty) if t.get('k') == 'adt' and tyname(t['p']) == 'Instant']
    if len(hf) != 1:
        ctx.undecided.append('Histogram: fields %s' % hf)
        return
    H = F(SELF, hf[0])
    unit = F(SELF, uf[0]) if uf else None
    limit, last, _ = activity(ctx, ty)
    ch, _ = setter_effect(ctx, ty, 'reset_after_inactivity')
    resets = F(SELF, next(iter(ch))) if ch and len(ch) == 1 else None
    for kind, u, x in updates(ctx):
        fn, outs = run_update(ctx, ty, u)
        site = '%s|%s' % (fn['p'], kind)
        for o in outs or []:
            rec_ = [(e, p) for e, p in events(o.ev) if e.a[0] in (HIST + '::update', HIST + '::update_at')]
            want = converted(ctx, ty, kind, x, o, unit)
            if isinstance(want, str):
                ctx.ob(False, 'record', site + '|range', 'whether a value (%s) fits makes no difference to a histogram' % kind, fn, detail=o.show())
                continue
            if want is None:
                ctx.ob(not rec_, 'record', site + '|none', 'an update (%s) without a value that fits is recorded as %s' % (kind, [show(e.a[2][-1]) for e, _ in rec_]), fn, detail=o.show())
            else:
                good = len(rec_) == 1 and not rec_[0][1] and same_cast(rec_[0][0].a[2][-1], want) and norm(rec_[0][0].a[1]) is H
                if good and rec_[0][0].a[0].endswith('_at'):
                    good = is_now(rec_[0][0].a[2][0])
                ctx.ob(good, 'record', site, 'an update (%s) is recorded as %s instead of once as %s' % (kind, [show(e.a[2][-1]) for e, _ in rec_], show(want)), fn, detail=o.show())
            fresh = mentions_call(F(o.final(SELF), hf[0]), HIST + '::new')
            due = and3(truth(o, resets) if resets is not None else False, is_inactive(o, limit, last))
            if fresh:
                ctx.ob(due is True, 'kept', site + '|drops', 'an update (%s) drops the recorded values though no inactivity limit was exceeded' % kind, fn, detail=fmt_facts(o))
            elif rec_:
                ctx.ob(due is False, 'kept', site + '|keeps', 'an update (%s) after an inactivity beyond the limit does not drop the old values' % kind, fn, detail=fmt_facts(o))
            r = kint(0) if want is None else kint(1)
            ctx.ob(o.ret is r, 'updated', site + '|ret', 'a histogram reports %s for an update (%s)' % (show(o.ret), kind), fn, detail=o.show())
            ch = set(changed(ctx, ty, o)) - set(hf) - set(tf)
            ctx.ob(not ch, 'else', site + '|else', 'an update (%s) of a histogram also changes %s' % (kind, sorted(ch)), fn)
    fn, ls = shown(ctx, ty, SELF)
    nm = F(SELF, 'name')
    for o, seq in ls:
        v = item(seq, nm)
        s = nested(v) if v is not None else None
        if s is None:
            ctx.ob(False, 'wired', fn['p'] + '|level', 'a histogram shows no level of its name', fn)
            continue
        try:
            its = {}
            for x in base_items(s)[1]:
                if x[0] == 'item':
                    its.setdefault(key_of(x[1]), []).append(x[2])
                else:
                    raise Odd('a loop writes into the level')
        except Odd as e:
            ctx.undecided.append('%s: %s' % (fn['p'], e))
            continue
        its = {k: v for k, v in its.items() if k not in ('_active', '_inactive')}
        if not its:
            continue                                       # inactive, see P21
        site = fn['p']
        cnt, known_ = None, False
        for a, st in o.facts.items():
            if a.op == 'int':
                d, c = lin_of(a.a[0])
                if len(d) == 1 and is_figure(next(iter(d)), 'count', H) and c == 0:
                    known_ = True
                    cnt = st[0][0] >= 1 if st[0][0] >= 1 or st[-1][1] <= 0 else None
        if cnt is None and set(its) == {'count'}:
            if known_:
                ctx.ob(False, 'wired', site + '|hidden', 'figures are hidden though there are values', fn, detail=fmt_facts(o))
            else:
                ctx.undecided.append('%s: when figures are hidden is not told by the number of values' % fn['p'])
            continue
        if cnt is None:
            ctx.ob(set(its) == {'count'}, 'empty', site + '|any', 'figures are shown whether or not there are values', fn, detail=fmt_facts(o))
            continue
        if not cnt:
            good = set(its) == {'count'} and (inner(its['count'][0]) is kint(0) or is_figure(inner(its['count'][0]), 'count', H))
            ctx.ob(good, 'empty', site + '|empty', 'without values %s is shown' % sorted(map(str, its)), fn)
            continue
        ctx.ob(set(its) == set(PLAIN) | {'quantiles'} and all(len(v) == 1 for v in its.values()), 'wired', site + '|names', 'a histogram shows %s' % sorted(map(str, its)), fn)
        for k, vk in PLAIN.items():
            if k in its:
                t = its[k][0]
                ctx.ob(t.a[1] == vk and is_figure(inner(t), k, H), 'wired', site + '|' + k, '%s is %s' % (k, show(t)[:160]), fn)
        q = nested(its['quantiles'][0]) if 'quantiles' in its else None
        if q is None:
            continue
        try:
            qs = [(y[1], y[2]) for y in base_items(q)[1] if y[0] == 'item']
            loops_ = [y for y in base_items(q)[1] if y[0] == 'loop']
        except Odd as e:
            ctx.undecided.append('%s: %s' % (fn['p'], e))
            continue
        if loops_:
            ctx.undecided.append('%s: quantiles are written by a loop over %s' % (fn['p'], show(loops_[0][1])[:120]))
            continue
        from snapshots import fstr
        named_ = {}
        for k, v in qs:
            ps = fstr(k)
            named_[''.join(p if isinstance(p, str) else str(p.a[1]) if p.op == 'k' else '?' for p in ps)] = v
        ctx.ob(sorted(named_) == sorted(QUANT) and len(qs) == len(QUANT), 'wired', site + '|quantiles', 'quantiles are shown as %s' % sorted(named_), fn)
        for k, v in named_.items():
            t = inner(v)
            w = float('0.' + k[1:]) if k[1:].isdigit() else None
            good = v.a[1] == 'Int' and t.op == 'call' and t.a[0].endswith('::value') and on_snapshot(t, H) and any(isinstance(y, N) and fconst(y) == w for y in walk_args(t))
            ctx.ob(good, 'wired', site + '|' + k, '%s is %s' % (k, show(t)[:200]), fn)
        reads = {e.a[3] for e, p in events(o.ev) if e.a[0] == HIST + '::snapshot'}
        ctx.ob(len(reads) == 1, 'wired', site + '|once', 'the figures are taken from %d snapshots of the values' % len(reads), fn)


def mentions_adt(t, name):
    if isinstance(t, dict):
        return t.get('k') == 'adt' and tyname(t['p']) == name or any(mentions_adt(x, name) for x in t.values())
    if isinstance(t, list):
        return any(mentions_adt(x, name) for x in t)
    return False


def mentions_call(t, name):
    return mentions(t, lambda x: x.op == 'call' and x.a[0] == name)


def walk_args(t):
    for x in t.a[1:]:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            yield from (y for y in x if isinstance(y, N))


def on_snapshot(t, H):
    return any(x.op == 'call' and x.a[0] == HIST + '::snapshot' and any(norm(y) is H for y in walk_args(x)) for x in walk_args(t))


def is_figure(t, name, H):
    return t.op == 'call' and t.a[0].endswith('Snapshot::' + name) and on_snapshot(t, H)

