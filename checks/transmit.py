"""P12 transmitters and the pairs they come from."""
from spec import *
from processing import lin_fact, is_now

NOW = 'now'                                               # placeholder: any clock reading


def same(x, want):
    """is term x the wanted one (NOW stands for a clock reading)"""
    if want is NOW:
        return is_now(x)
    if isinstance(want, tuple):                            # (variant, {field: wanted})
        v, flds = want
        return x.op == 'agg' and x.a[1] == v and len(x.a[2]) == len(flds) and all(k in flds and same(y, flds[k]) for k, y in x.a[2])
    if callable(want):
        return want(x)
    return x is want


def obs(v, **k):
    return (v, dict(k))


def is_into(src):
    """the user's value converted into an ObservedValue"""
    def f(x):
        return x.op == 'app' and str(x.a[0]).startswith('into:ObservedValue') and x.a[1] is src or x is src
    return f


def dur(src):
    """the whole duration, in nanoseconds"""
    return ('Duration', {'0': src, '1': ('Nanoseconds', {})})


CONTROL = ('add_handler', 'add_cockpit', 'remove_cockpit', 'add_panel_to_cockpit', 'remove_panel_from_cockpit')


def messages(ctx, pick=None):
    """what each method of a transmitter (or those picked) puts on its queue"""
    a1, a2, a3 = arg(1), arg(2), arg(3)
    O = lambda w: ('Observation', {'0': w})
    Z = 'Observed', 'ObservedOne', 'ObservedOneValue'
    table = {
        'transmit': O(a1),
        'observed': O(obs(Z[0], label=a1, count=a2, timestamp=a3)),
        'observed_now': O(obs(Z[0], label=a1, count=a2, timestamp=NOW)),
        'observed_one': O(obs(Z[1], label=a1, timestamp=a2)),
        'observed_one_now': O(obs(Z[1], label=a1, timestamp=NOW)),
        'observed_one_value': O(obs(Z[2], label=a1, value=is_into(a2), timestamp=a3)),
        'observed_one_value_now': O(obs(Z[2], label=a1, value=is_into(a2), timestamp=NOW)),
        'observed_duration': O(obs(Z[2], label=a1, value=dur(a2), timestamp=a3)),
        'observed_one_duration_now': O(obs(Z[2], label=a1, value=dur(a2), timestamp=NOW)),
        'measure_time': None,
        'add_handler': ('AddHandler', {'0': a1}),
        'add_cockpit': ('AddCockpit', {'0': a1}),
        'remove_cockpit': ('RemoveCockpit', {'0': a1}),
        'add_panel_to_cockpit': ('AddPanelToCockpit', {'cockpit_name': a1, 'panel': a2}),
        'remove_panel_from_cockpit': ('RemovePanelFromCockpit', {'cockpit_name': a1, 'panel_name': a2}),
    }
    ty = ctx.adt('TelemetryTransmitter')
    sub = {'Self': {'k': 'adt', 'p': ty['p'], 'a': [{'k': 'param', 'n': 'L'}]}}
    sender = F(SELF, ctx.field_by('TelemetryTransmitter', lambda t: is_adt(t, 'Sender'), 'queue'))
    wait = F(SELF, ctx.field_by('TelemetryTransmitter', lambda t: prim(t) == 'bool', 'blocking flag'))
    for name, want in table.items():
        if pick is not None and name not in pick:
            continue
        try:
            fn, s = ctx.trait_fn('TelemetryTransmitter', 'TransmitsTelemetryData', name), None
        except Missing:
            fn, s = ctx.default_fn('TransmitsTelemetryData', name), sub
        site = fn['p']
        for o in ctx.run(fn, subst=s) or []:
            se = [(e, p) for e, p in events(o.ev) if 'send' in e.a[0].split('::')[-1]]
            expected = 1
            if name == 'measure_time':
                f = lin_fact(o.facts, lambda d: None if len(d) != 2 or a1 in d or a2 not in d or not all(is_now(t) for t in d if t is not a2) or
                             sum(d.values()) else d[a2])
                if f is None:
                    ctx.ob(False, 'message', site + '|cond', 'measure_time does not look at whether its start lies in the future', fn, detail=fmt_facts(o))
                    continue
                expected = 1 if f[1] <= 0 else 0 if f[0] >= 1 else None
                if expected is None:
                    ctx.ob(False, 'message', site + '|cond', 'measure_time decides by %s' % fmt_facts(o)[:200], fn)
                    continue
            if not ctx.ob(len(se) == expected and not any(p for _, p in se), 'message', site + '|once', '%s sends %d messages instead of %d' % (
                    name, len(se), expected), fn, detail=o.show()):
                continue
            for e, _ in se:
                ctx.ob(norm(e.a[1]) is sender, 'message', site + '|queue', '%s sends to %s' % (name, show(e.a[1])[:80]), fn)
                w = truth(o, wait)
                how = e.a[0].split('::')[-1]
                if w is None:
                    ctx.ob(False, 'blocking', site + '|any', '%s: whether to wait for a full queue makes no difference' % name, fn)
                else:
                    ctx.ob(how == ('send' if w else 'try_send'), 'blocking', site + '|how', '%s uses %s although it must %swait for a full queue' % (
                        name, how, '' if w else 'not '), fn)
                m = e.a[2][0]
                if name == 'measure_time':
                    good = m.op == 'agg' and m.a[1] == 'Observation' and same(m.a[2][0][1], obs(
                        Z[2], label=a1, timestamp=NOW, value=('Duration', {'0': lambda x: since(x, a2), '1': ('Nanoseconds', {})})))
                else:
                    good = same(m, want)
                ctx.ob(good, 'message', site + '|what', '%s sends %s' % (name, show(m)[:300]), fn)
    others = [f['name'] for f in ctx.data['fns'] if f.get('in_trait') and tyname(f['in_trait']) == 'TransmitsTelemetryData' and f['kind'] != 'Closure']
    for n in others:
        if n not in table:
            ctx.undecided.append('TransmitsTelemetryData::%s is not specified' % n)
    return sender, wait


def p12(ctx):
    ctx.rule('message', 'every method of a transmitter puts exactly one message on its queue, with what it was given')
    ctx.rule('blocking', 'a transmitter uses the waiting way of sending exactly when asked to block on a full queue')
    ctx.rule('pair', 'transmitter and processor of a pair share one queue of the requested kind')
    ctx.rule('clone', 'a clone of a transmitter sends to the same queue in the same way')
    ctx.rule('constructor', 'observations are created with what was given')
    ctx.rule('gone', 'a transmitter that goes sends nothing')
    quiet_drops(ctx, 'gone', 'TelemetryTransmitter', 'TelemetryMessage', 'Observation')
    sender, wait = messages(ctx)
    queue_state(ctx, sender)
    pairs(ctx)
    clone(ctx, sender, wait)
    constructors(ctx)


def since(x, start):
    """now - start"""
    d, c = lin_of(x)
    return c == 0 and len(d) == 2 and d.get(start) == -1 and all(is_now(t) and k == 1 for t, k in d.items() if t is not start)


def queue_state(ctx, sender):
    for m, q in (('is_queue_full', 'is_full'), ('is_queue_empty', 'is_empty'), ('queue_size', 'len'), ('queue_capacity', 'capacity')):
        fn = ctx.inh('TelemetryTransmitter', m, opt=True)
        if fn is None:
            continue
        for o in ctx.run(fn) or []:
            def asked(t):
                return t.op in ('call', 'app') and str(t.a[0]).split('::')[-1] == q and mentions(t, lambda x: x is sender)
            r = o.ret
            good = asked(r)
            if r is TRUE or r is FALSE:                    # the answer was looked at before it was given back
                good = any(any(asked(x) for x in k.a if isinstance(x, N)) and vs == frozenset((r is TRUE,)) for k, vs in o.facts.items() if k.op == 'bool')
            ctx.ob(good, 'clone', fn['p'], '%s answers %s' % (m, show(r)[:100]), fn)


def pairs(ctx):
    a1, a2, a3 = arg(1), arg(2), arg(3)
    b0 = arg(0)
    snd = ctx.field_by('TelemetryTransmitter', lambda t: is_adt(t, 'Sender'), 'queue')
    wait = ctx.field_by('TelemetryTransmitter', lambda t: prim(t) == 'bool', 'flag')
    rcv = ctx.field_by('TelemetryProcessor', lambda t: is_adt(t, 'Receiver'), 'queue')
    for name, nm, cap, blk in (('new_pair', a1, None, TRUE), ('new_pair_without_name', None, None, TRUE),
                               ('new_pair_bounded', a1, a2, a3), ('new_pair_bounded_without_name', None, a1, a2)):
        fn = ctx.inh('TelemetryProcessor', name)
        site = fn['p']
        for o in ctx.run(fn) or []:
            t, p = F(o.ret, '0'), F(o.ret, '1')
            s, r = F(t, snd), F(p, rcv)
            one = s.op == 'f' and r.op == 'f' and s.a[0] is r.a[0] and s.a[1] == '0' and r.a[1] == '1'
            ctx.ob(one, 'pair', site + '|queue', '%s: the transmitter sends to %s, the processor reads %s' % (name, show(s)[:80], show(r)[:80]), fn)
            if not one:
                continue
            ch = s.a[0]
            kind = str(ch.a[0]).split('::')[-1] if ch.op == 'call' else '?'
            if cap is None:
                ctx.ob(kind == 'unbounded', 'pair', site + '|kind', '%s creates a queue of kind %s' % (name, kind), fn)
            else:
                ctx.ob(kind == 'bounded' and any(x is cap for x in ch.a if isinstance(x, N)), 'pair', site + '|kind',
                       '%s creates the queue %s' % (name, show(ch)[:80]), fn)
                ctx.ob(F(t, wait) is blk, 'pair', site + '|block', '%s: blocking on a full queue is %s' % (name, show(F(t, wait))[:60]), fn)
            n = F(p, 'name')
            ctx.ob(n is (some(nm) if nm is not None else agg(OPT, 'None', ())), 'pair', site + '|name', '%s: the processor is named %s' % (name, show(n)[:60]), fn)
            for fld in ('cockpits', 'handlers', 'snapshooters'):
                v = F(p, fld)
                ctx.ob(v is lst(None, ()), 'pair', '%s|%s' % (site, fld), '%s: a new processor has %s = %s' % (name, fld, show(v)[:60]), fn)


def clone(ctx, sender, wait):
    try:
        fn = ctx.trait_fn('TelemetryTransmitter', 'Clone', 'clone')
    except Missing:
        return
    for o in ctx.run(fn) or []:
        ctx.ob(norm(F(o.ret, sender.a[1])) is sender and F(o.ret, wait.a[1]) is wait, 'clone', fn['p'], 'a clone of a transmitter is %s' % show(o.ret)[:200], fn)
        ctx.ob(not [e for e, _ in events(o.ev)], 'clone', fn['p'] + '|effects', 'cloning a transmitter has effects', fn, detail=o.show())


def constructors(ctx):
    a1, a2, a3 = IN('label'), IN('x2'), IN('x3')
    Z = 'Observed', 'ObservedOne', 'ObservedOneValue'
    for name, args, want in (
            ('observed', 3, lambda a: obs(Z[0], label=a[0], count=a[1], timestamp=a[2])),
            ('observed_now', 2, lambda a: obs(Z[0], label=a[0], count=a[1], timestamp=NOW)),
            ('observed_one', 2, lambda a: obs(Z[1], label=a[0], timestamp=a[1])),
            ('observed_one_now', 1, lambda a: obs(Z[1], label=a[0], timestamp=NOW)),
            ('observed_one_value', 3, lambda a: obs(Z[2], label=a[0], value=is_into(a[1]), timestamp=a[2])),
            ('observed_one_value_now', 2, lambda a: obs(Z[2], label=a[0], value=is_into(a[1]), timestamp=NOW))):
        fn = ctx.inh('Observation', name, opt=True)
        if fn is None:
            continue
        av = [a1, a2, a3][:args]
        for o in ctx.run(fn, args=av) or []:
            ctx.ob(same(o.ret, want(av)), 'constructor', fn['p'], 'Observation::%s gives %s' % (name, show(o.ret)[:200]), fn)
    # reading an observation back
    for v, flds in (('Observed', ('label', 'count', 'timestamp')), ('ObservedOne', ('label', 'timestamp')), ('ObservedOneValue', ('label', 'value', 'timestamp'))):
        ob_ = agg(ctx.adt('Observation')['p'], v, [(f, IN('obs.' + f)) for f in flds])
        for m in ('label', 'timestamp'):
            fn = ctx.inh('Observation', m, opt=True)
            for o in (ctx.run(fn, args=[ob_]) or []) if fn is not None else []:
                r = norm(o.ret)
                ctx.ob(r is IN('obs.' + m), 'constructor', '%s|%s' % (fn['p'], v), '%s() of an observation gives %s' % (m, show(r)[:80]), fn)
