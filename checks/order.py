"""P32: what is sent to a processor takes effect in the order in which it was sent."""
from spec import *
from delivery import *
from processing import process_fn, flags, control_variants, control_message, RECV

CONTROLS = {'Cockpit::add_panel', 'Cockpit::remove_panel'}
ADDS = {'AddCockpit', 'AddHandler'}
REMOVES = {'RemoveCockpit'}


def places(values):
    """successive receives yield the given messages, then nothing; each one notes which queue it looked at"""
    base = script(values)['Receiver::try_recv']

    def f(call):
        call.e.event(call.st, 'looked at', call.e.locname(call.st, call.args[0]) if call.args else UNIT, (), UNIT, tuple(call.span))
        return base(call)
    return {n: f for n in ('Receiver::try_recv', 'Receiver::recv')}


def runs(ctx, msgs, strat):
    return ctx.run(process_fn(ctx), args=[SELF, kint(len(msgs) + 1), strat], overrides=places([ok(m) for m in msgs]),
                   facts=[(F(SELF, f), False) for f in flags(ctx)], unroll=SCRIPT, barrier=set(BARRIER) | CONTROLS) or ()


def observed_as(e):
    """which of the scripted observations an event hands over"""
    hit = set()
    for x in e.a[2]:
        walk(x, lambda t: hit.add(str(t.a[0]).split('.')[0]) if t.op == 'in' and str(t.a[0]).split('.')[0] in ('first', 'second') else None)
    return next(iter(hit)) if len(hit) == 1 else None


def handed(o):
    """[(observation, receiver, loop path)] in order"""
    return [(observed_as(e), e.a[1], p) for e, p in events(o.ev, EV)]


def about(t, name):
    return mentions(t, lambda x: x.op == 'in' and str(x.a[0]).split('.')[0] == name)


def p32(ctx):
    ctx.rule('pairs', 'of two observations every receiver is given the one that was sent first before the other')
    ctx.rule('before', 'an observation sent before a control message is handled as if the control message were not there')
    ctx.rule('after', 'an observation sent after a control message is handled with what the control message did')
    ctx.rule('queue', 'everything is taken from the one queue')
    ctx.rule('each', 'what is taken from the queue is carried out before more is taken, in runs of any length')
    fn = process_fn(ctx)
    st = strategies(ctx)['ProcessAll']

    def ob(n, v='ObservedOne'):
        return message(ctx, 'Observation', [('0', observation(v, n))])
    queues = set()
    seen = 0
    for v in OBS:
        for w in OBS:
            for o in runs(ctx, [ob('first', v), ob('second', w)], st):
                note_queues(o, queues)
                hs = handed(o)
                seen += len(hs)
                per = {}
                for i, (x, r, p) in enumerate(hs):
                    per.setdefault(r, []).append((x, p))
                for r, xs in per.items():
                    names = [x for x, _ in xs]
                    good = None not in names and names == sorted(names)
                    if good and 'second' in names and any(p and p[-1][0] is q[-1][0] and p[-1][1] is not q[-1][1] for (x, p), (y, q) in zip(xs, xs[1:]) if x != y and q):
                        good = False
                    ctx.ob(good, 'pairs', '%s|%s|%s' % (fn['p'], v, w), '%s is given the observations as %s' % (show(r)[:80], ', '.join(str(x) for x in names)), fn, detail=o.show())
    ctx.ob(seen > 0, 'pairs', fn['p'] + '|any', 'observations are not handed to anything', fn)
    for cv in control_variants(ctx):
        m = control_message(ctx, cv)
        nm = cv['n']
        for o in runs(ctx, [ob('first'), m], st):
            note_queues(o, queues)
            site = '%s|%s' % (fn['p'], nm)
            for x, r, p in handed(o):
                hit = about(r, 'm') or any(l.a[0] is not None and about(l.a[0], 'm') for l, _ in p)
                ctx.ob(not hit, 'before', site, 'an observation sent before %s is handed to %s' % (nm, show(p[-1][0].a[0] if p else r)[:150]), fn, detail=o.show())
            acts(ctx, o, 'before', site, nm, True, fn)
        for o in runs(ctx, [m, ob('second')], st):
            note_queues(o, queues)
            site = '%s|%s' % (fn['p'], nm)
            hs = handed(o)
            if nm in ADDS and holds(ctx, o, 'm'):
                n = sum(1 for x, r, p in hs if about(r, 'm') or any(l.a[0] is not None and about(l.a[0], 'm') for l, _ in p))
                ctx.ob(n >= 1, 'after', site, 'an observation sent after %s is not handed to what was added' % nm, fn, detail=o.show())
            if nm in REMOVES:
                for x, r, p in hs:
                    src = norm(p[-1][0].a[0]) if p and p[-1][0].a[0] is not None else None
                    if src is not None and mentions(p[-1][0].a[0], lambda n: n.op == 'rec'):
                        ctx.undecided.append('after %s observations are handed to what a loop of its own has left' % nm)
                        continue
                    for f, t in ctx.fields('TelemetryProcessor'):
                        if src is F(SELF, f):
                            ctx.ob(F(o.final(SELF), f) is src or not about(F(o.final(SELF), f), 'm'), 'after', site,
                                   'an observation sent after %s is handed to %s, with what was removed' % (nm, show(src)[:100]), fn, detail=o.show())
            acts(ctx, o, 'after', site, nm, False, fn)
    # a control message between two observations: both rules at once, and nothing in between gets lost
    for cv in control_variants(ctx):
        if cv['n'] not in ADDS:
            continue
        for o in runs(ctx, [ob('first'), control_message(ctx, cv), ob('second')], st):
            hs = [(x, about(r, 'm')) for x, r, p in handed(o)]
            site = '%s|%s|between' % (fn['p'], cv['n'])
            ctx.ob(not any(x == 'first' and y for x, y in hs), 'before', site, 'an observation sent before %s is handed to what is added' % cv['n'], fn, detail=o.show())
            order = [x for x, _ in hs]
            ctx.ob(order == sorted(order, key=str), 'pairs', site, 'the observations are handed over as %s' % ', '.join(map(str, order)), fn, detail=o.show())
    ctx.ob(len(queues) == 1, 'queue', fn['p'], 'messages are taken from %s' % ', '.join(sorted(show(q)[:80] for q in queues)), fn)
    any_length(ctx, fn)


def note_queues(o, queues):
    for e, _ in events(o.ev, 'looked at'):
        queues.add(norm(e.a[1]))


def holds(ctx, o, name):
    """does the processor hold the thing of the message afterwards"""
    fin = o.final(SELF)
    return any(about(F(fin, f), name) and F(fin, f).op == 'list' for f, t in ctx.fields('TelemetryProcessor'))


def acts(ctx, o, rule, site, nm, first, fn):
    """panels are added to and removed from a cockpit after (before) the observation was handed over"""
    seq = [('obs' if e.a[0] == EV else 'control', p) for e, p in events(o.ev) if e.a[0] == EV or e.a[0] in CONTROLS]
    kinds = [k for k, _ in seq]
    if 'control' not in kinds or 'obs' not in kinds:
        return
    want = sorted(kinds, key=lambda k: (k == 'control') == first)
    ctx.ob(kinds == want, rule, site + '|act', '%s takes effect %s an observation that was sent %s it' % (nm, 'before' if first else 'after', 'before' if first else 'after'), fn, detail=o.show())


def any_length(ctx, fn):
    """in runs of any length an observation is handed over in the round of the loop it was taken in"""
    st = strategies(ctx)['ProcessAll']
    msg = ok(message(ctx, 'Observation', [('0', observation('ObservedOne', 'first'))]))

    def recv(call):
        call.e.event(call.st, RECV, UNIT, (), msg, tuple(call.span))
        return [(call.st, msg)]
    outs = ctx.run(fn, args=[SELF, IN('max'), st], overrides={'Receiver::try_recv': recv, 'Receiver::recv': recv},
                   facts=[(F(SELF, f), False) for f in flags(ctx)]) or ()
    n = 0
    for o in outs:
        for e in o.ev:
            if e.op != 'loop':
                continue
            for alt in e.a[1]:
                names = [x.a[0] for x, _ in events(alt[1]) if x.a[0] in (RECV, EV)]
                if RECV not in names:
                    if EV in names and any(RECV in [x.a[0] for x, _ in events((l,))] for l in o.ev if l is not e and l.op == 'loop'):
                        ctx.undecided.append('%s: observations are handed over in another loop than they are taken in' % fn['p'])
                    continue
                n += 1
                if EV not in names:
                    continue
                ctx.ob(names.index(RECV) < names.index(EV) and names.count(RECV) == 1, 'each', fn['p'],
                       'a round of the loop hands over observations before it has taken one', fn, detail=show_ev(e)[:800])
    if not n:
        ctx.undecided.append('%s: the loop that takes messages is not of a known form' % fn['p'])
