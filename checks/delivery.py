"""Delivery of observations through processors, cockpits and panels."""
from spec import *

EV = 'HandlesObservations::handle_observation'
OBS = ('Observed', 'ObservedOne', 'ObservedOneValue')


def observation(variant, name='obs'):
    flds = {'Observed': ('label', 'count', 'timestamp'), 'ObservedOne': ('label', 'timestamp'),
            'ObservedOneValue': ('label', 'value', 'timestamp')}[variant]
    return agg('observation::Observation', variant, [(f, IN('%s.%s' % (name, f))) for f in flds])


def obs_label(variant, node):
    return proj_get(node, '%s.label' % variant)


def obs_adt(ctx):
    return ctx.adt('Observation')['p']


def message(ctx, variant, fields):
    return agg(ctx.adt('TelemetryMessage')['p'], variant, fields)


def recv_override(value):
    """the receiving loop sees `value` (a Result term) at every receive"""
    def f(call):
        return [(call.st, value)]
    return {'Receiver::try_recv': f, 'Receiver::recv': f}


SCRIPT = ('script', 'recv')


def script(values, *names):
    """successive receives yield the given Result terms, then Err(Empty) for good; loops that receive are unrolled"""
    empty = err(agg('crossbeam_channel::err::TryRecvError', 'Empty', ()))

    def f(call):
        k = call.st.cnt.get(SCRIPT, 0)
        call.st.cnt[SCRIPT] = k + 1
        if k < len(values) and values[k].a[1] == 'Ok':
            call.e.event(call.st, 'recv', UNIT, (), values[k], tuple(call.span))
        return [(call.st, values[k] if k < len(values) else empty)]
    return {n: f for n in (names or ('Receiver::try_recv', 'Receiver::recv'))}


def recv_fields(ctx):
    return ctx.field_by('TelemetryProcessor', lambda t: is_adt(t, 'Receiver'), 'receiver')


def disconnected_field(ctx):
    """bool field set when the channel is disconnected (the early-exit flag), if there is one"""
    return [n for n, t in ctx.fields('TelemetryProcessor') if prim(t) == 'bool']


def strategies(ctx):
    p = ctx.adt('ProcessingStrategy')['p']
    return {'ProcessAll': agg(p, 'ProcessAll', ()), 'DropAll': agg(p, 'DropAll', ()),
            'DropOlderThan': agg(p, 'DropOlderThan', [('max_age', IN('max_age')), ('drop_deltas', IN('drop_deltas'))])}


def collected(ctx):
    """whether process() first takes messages in one loop and carries them out in another: then what one round of
    either loop does says nothing about a message, and only the runs with given messages are judged"""
    if not hasattr(ctx, 'collected_'):
        fn = ctx.trait_fn('TelemetryProcessor', 'ProcessesTelemetryMessages', 'process')
        msg = ok(message(ctx, 'Observation', [('0', observation('ObservedOne', 'first'))]))

        def recv(call):
            call.e.event(call.st, 'recv', UNIT, (), msg, tuple(call.span))
            return [(call.st, msg)]
        ctx.collected_ = False
        for o in ctx.run(fn, args=[SELF, IN('max'), strategies(ctx)['ProcessAll']], overrides={'Receiver::try_recv': recv, 'Receiver::recv': recv},
                         facts=[(F(SELF, f), False) for f in disconnected_field(ctx) if f != 'show_activity_state']) or ():
            names = [[{x.a[0] for x, _ in events(alt[1])} for alt in l.a[1]] for l in o.ev if l.op == 'loop']
            takes = [any('recv' in n for n in alts) for alts in names]
            gives = [any(EV in n for n in alts) for alts in names]
            both = any('recv' in n and EV in n for alts in names for n in alts)
            if not both and any(takes) and any(g and not t for g, t in zip(gives, takes)):
                ctx.collected_ = True
        if ctx.collected_:
            ctx.undecided.append('%s: messages are taken in one loop and carried out in another; only runs with given messages are judged' % fn['p'])
    return ctx.collected_


def batch_loop(o):
    """the receive loop of a processing outcome: the loops whose body has effects on receivers"""
    return [l for l in o.ev if l.op == 'loop']


def p01(ctx):
    ctx.rule('fan-out', 'everything registered in a panel, cockpit or processor that handles observations gets each observation exactly once')
    ctx.rule('sum', 'the reported number of updated instruments is the sum over everything the observation was given to')
    # --- panel and cockpit
    for ty in ('Panel', 'Cockpit'):
        fn = ctx.trait_fn(ty, 'HandlesObservations', 'handle_observation')
        sl = slots(ctx.db, ctx.adt(ty)['p'], 'HandlesObservations', SELF)
        ctx.ob(len(sl) >= (6 if ty == 'Panel' else 2), 'fan-out', ty + '|slots', '%s: fewer places that hold receivers than expected: %s' % (
            ty, [s.label for s in sl]), fn)
        outs = ctx.run(fn)
        if outs is None:
            continue
        accepted = 0
        for o in outs:
            if ty == 'Panel':
                acc = [a for a in o.facts if a.op == 'bool' and a.a[0].op == 'call' and a.a[0].a[0] == 'LabelFilter::accepts']
                if not acc:
                    ctx.ob(False, 'fan-out', fn['p'] + '|label', 'a path handles the observation without asking the label filter', fn, detail=o.show())
                    continue
                yes = o.facts[acc[0]] == frozenset((True,))
                if not yes:
                    n = list(events(o.ev, EV))
                    ctx.ob(not n, 'fan-out', fn['p'] + '|rejected', 'an observation whose label is rejected is delivered', fn, detail=o.show())
                    ctx.ob(o.ret is kint(0), 'sum', fn['p'] + '|rejected', 'a rejected observation is reported as having updated instruments', fn)
                    continue
            accepted += 1
            check_slots(ctx, 'fan-out', fn, o.ev, o.facts, sl, EV, lambda e: same_obs(o, e.a[2][0]), ty)
            sum_of_slots(ctx, 'sum', fn, o.ret, o.facts, sl, EV, ty)
        ctx.ob(accepted > 0, 'fan-out', fn['p'] + '|accepting', '%s never passes an observation on' % ty, fn)
        ctx.sample('%s: %d paths, places %s' % (fn['p'], len(outs), [s.label for s in sl]))
    # --- processor
    fn = ctx.trait_fn('TelemetryProcessor', 'ProcessesTelemetryMessages', 'process')
    sl = slots(ctx.db, ctx.adt('TelemetryProcessor')['p'], 'HandlesObservations', SELF)
    ctx.ob(len(sl) >= 2, 'fan-out', 'TelemetryProcessor|slots', 'fewer places that hold receivers than expected', fn)
    st = strategies(ctx)['ProcessAll']
    for v in OBS:
        ob = observation(v)
        if collected(ctx):
            for o in ctx.run(fn, args=[SELF, kint(1), st], overrides=script([ok(message(ctx, 'Observation', [('0', ob)]))]), unroll=SCRIPT,
                             facts=[(F(SELF, f), False) for f in disconnected_field(ctx) if f != 'show_activity_state']) or ():
                check_slots(ctx, 'fan-out', fn, o.ev, o.facts, sl, EV, lambda e: e.a[2][0] is ob, 'processor', ' for ' + v)
                sum_of_slots(ctx, 'sum', fn, F(o.ret, 'instruments_updated'), o.facts, sl, EV, 'processor')
            continue
        outs = ctx.run(fn, args=[SELF, IN('max'), st], overrides=recv_override(ok(message(ctx, 'Observation', [('0', ob)]))),
                       facts=[(F(SELF, f), False) for f in disconnected_field(ctx) if f != 'show_activity_state'] + [(cmp_int('ge', IN('max'), kint(1)), True)])
        if outs is None:
            continue
        found = 0
        for o in outs:
            for l in o.ev:
                if l.op != 'loop':
                    continue
                for alt in l.a[1]:
                    found += 1
                    facts = dict(o.facts)
                    facts.update(dict(alt[0]))
                    check_slots(ctx, 'fan-out', fn, alt[1], facts, sl, EV, lambda e: e.a[2][0] is ob, 'processor', ' for ' + v)
            ins = F(o.ret, 'instruments_updated')
            per_message_sum(ctx, fn, ins, sl, v)
        ctx.ob(found > 0, 'fan-out', fn['p'] + '|' + v, 'a received %s observation is given to nobody when everything is processed' % v, fn)


def per_message_sum(ctx, fn, val, sl, v):
    init, chain = rec_parts(val)
    site = '%s|instruments_updated|%s' % (fn['p'], v)
    if len(chain) != 1 or init is not kint(0):
        ctx.undecided.append('%s: instruments_updated is %s' % (fn['p'], show(val)[:200]))
        return
    for facts, x in chain[0][1]:
        ls = linsum(x)
        if ls is None:
            ctx.undecided.append('%s: per-message count %s' % (fn['p'], show(x)[:200]))
            continue
        terms, c = ls
        terms = dict(terms)
        good = c == 0 and terms.pop((None, ME), 0) == 1
        want = {s.coll: s for s in sl}
        got = {}
        for (coll, t), k in terms.items():
            cc = norm(coll) if coll is not None else None
            if t.op == 'call' and t.a[0] == EV and k == 1 and cc in want and norm(t.a[2]) is want[cc].recv:
                got[cc] = got.get(cc, 0) + 1
            else:
                good = False
        ctx.ob(good and all(got.get(c) == 1 for c in want), 'sum', site,
               'the instruments_updated of a batch is not the sum over everything the %s observation was given to: %s' % (v, show(x)[:300]), fn)


def same_obs(o, x):
    """x is the observation passed in (arg 1), possibly taken apart and rebuilt"""
    if x is arg(1):
        return True
    if x.op == 'agg' and tyname(x.a[0]) == 'Observation':
        return all(v is proj_get(arg(1), '%s.%s' % (x.a[1], k)) for k, v in x.a[2])
    return False
