"""What a processor does with the messages it takes from its queue."""
from spec import *
from delivery import (collected, EV, OBS, observation, message, recv_override, script, SCRIPT, disconnected_field, strategies)

RECV = 'recv'
TRYERR = 'crossbeam_channel::err::TryRecvError'


def process_fn(ctx, ty='TelemetryProcessor'):
    return ctx.trait_fn(ty, 'ProcessesTelemetryMessages', 'process')


def flags(ctx):
    """the flag(s) that make process() do nothing: bool fields that are false in a new processor"""
    fs = disconnected_field(ctx)
    outs = ctx.run(ctx.inh('TelemetryProcessor', 'create'))
    new = [x for x in (o.ret for o in outs or [])]
    r = []
    for f in fs:
        vals = [proj_get(proj_get(n, '1'), f) for n in new]
        if vals and all(v is FALSE for v in vals):
            r.append(f)
    return r


def step(ctx, results, strategy, max=None, barrier=BARRIER):
    """paths of process() when successive receives yield `results` and then nothing"""
    fn = process_fn(ctx)
    facts = [(F(SELF, f), False) for f in flags(ctx)]
    return ctx.run(fn, args=[SELF, kint(len(results)) if max is None else max, strategy], overrides=script(results),
                   facts=facts, unroll=SCRIPT, barrier=barrier)


class Merged:
    """a path's facts together with those of one iteration of a loop in it"""
    def __init__(self, o, facts):
        self.o, self.st, self.eng = o, o.st, o.eng
        self.facts = dict(o.facts)
        for a, s in (facts.items() if isinstance(facts, dict) else facts):
            if a in self.facts:
                s = inter(self.facts[a], s)
            self.facts[a] = s

    def truth(self, b):
        r = truth(self.o, b)
        if r is None:
            at, sat = as_test(b)
            s = self.facts.get(at)
            if s is not None:
                r = False if not inter(s, sat) else True if inter(s, sat) == s else None
        return r


def showfacts(facts):
    return '; '.join(sorted('%s in %s' % (show(a.a[0])[:100], showset(s)) for a, s in facts))[:300] or 'always'


def steady(ctx, results, strategy, facts=()):
    """paths of process() for any limit when every receive yields any of `results`: loops are summarised"""
    if collected(ctx):
        return []
    fn = process_fn(ctx)

    def recv(call):
        return [(call.st.copy(), r) for r in results]
    return ctx.run(fn, args=[SELF, IN('max'), strategy], overrides={'Receiver::try_recv': recv, 'Receiver::recv': recv},
                   facts=[(F(SELF, f), False) for f in flags(ctx)] + list(facts))


SOME = [(cmp_int('ge', IN('max'), kint(1)), True)]                    # a limit that lets anything be taken


def received(o):
    return sum(1 for e in o.ev if e.op == 'ev' and e.a[0] == RECV)


def lin_fact(facts, want):
    """range of the integer combination `want` ({term predicate name: coefficient}) according to the facts:
    want is a function mapping a linear form (dict) to its scale k or None"""
    lo, hi = -INF, INF
    seen = False
    for a, s in facts.items():
        if a.op != 'int':
            continue
        d, c = lin_of(a.a[0])
        k = want(d)
        if k is None or abs(k) != 1 or not s:
            continue
        l, h = s[0][0] - c, s[-1][1] - c
        if k < 0:
            l, h = -h, -l
        lo, hi = max(lo, l), min(hi, h)
        seen = True
    return (lo, hi) if seen else None


def is_now(t):
    return t.op == 'call' and t.a[0] == 'now'


def freshness(facts, ts, age):
    """is the observation not older than the allowed age (None: this path did not find out)"""
    for a, s in facts.items():
        if a.op == 'bool' and a.a[0].op == 'app' and str(a.a[0].a[0]).startswith('overflow:sub') and age in a.a[0].a and len(s) == 1 \
                and True in s:
            return True

    def want(d):
        if len(d) != 3 or d.get(ts) is None or d.get(age) is None:
            return None
        k = d[ts]
        rest = [t for t in d if t is not ts and t is not age]
        if d[age] == k and is_now(rest[0]) and d[rest[0]] == -k:
            return k
        return None
    r = lin_fact(facts, want)
    if r is None:
        return None
    if r[0] >= 0:
        return True
    if r[1] <= -1:
        return False
    return None


def or3(*xs):
    if True in xs:
        return True
    return False if all(x is False for x in xs) else None


def and3(*xs):
    if False in xs:
        return False
    return True if all(x is True for x in xs) else None


def not3(x):
    return None if x is None else not x


def must_process(ctx, o, strat, v, name='obs'):
    if strat == 'ProcessAll':
        return True
    if strat == 'DropAll':
        return False
    fresh = freshness(o.facts, IN(name + '.timestamp'), IN('max_age'))
    keep = not3(o.truth(IN('drop_deltas')) if isinstance(o, Merged) else truth(o, IN('drop_deltas')))
    if v == 'ObservedOneValue':
        vs = ctx.db.variants(ctx.adt('ObservedValue')['p'])
        s = o.facts.get(mk('disc', IN(name + '.value'), frozenset(n for n, _ in vs)))
        delta = None if s is None else True if s == frozenset(('ChangedBy',)) else False if 'ChangedBy' not in s else None
    else:
        delta = False
    return or3(fresh, and3(keep, delta))


def delivered(o):
    return any(True for _ in events(o.ev, EV))


def p04(ctx):
    ctx.rule('policy', 'an observation is passed on exactly when the processing strategy says so')
    fn = process_fn(ctx)
    for sname, st in strategies(ctx).items():
        for v in OBS:
            outs = step(ctx, [ok(message(ctx, 'Observation', [('0', observation(v))]))], st)
            if outs is None:
                continue
            verdicts = set()
            for o in outs:
                if received(o) != 1:
                    continue
                w = must_process(ctx, o, sname, v)
                verdicts.add(w)
                site = '%s|%s|%s' % (fn['p'], sname, v)
                ctx.ob(w is not None, 'policy', site + '|basis', 'with strategy %s, whether a %s observation is passed on does not depend on what it '
                       'must depend on (age against the maximum age, whether it is a change, whether changes may be dropped)' % (sname, v), fn,
                       detail=o.show())
                if w is not None:
                    ctx.ob(delivered(o) == w, 'policy', site + ('|kept' if w else '|dropped'),
                           'with strategy %s, a %s observation that must be %s is %s (%s)' % (
                               sname, v, 'passed on' if w else 'dropped', 'dropped' if w else 'passed on', fmt_facts(o)[:300]), fn, detail=o.show())
            need = {'ProcessAll': {True}, 'DropAll': {False}, 'DropOlderThan': {True, False}}[sname]
            ctx.ob(need <= verdicts, 'policy', '%s|%s|%s|reach' % (fn['p'], sname, v),
                   'with strategy %s no path of the processing of a %s observation ends in %s' % (sname, v, need - verdicts), fn)
            # any iteration of a run of any length
            for o in steady(ctx, [ok(message(ctx, 'Observation', [('0', observation(v))]))], st, SOME) or ():
                site = '%s|%s|%s|any' % (fn['p'], sname, v)
                lp = [l for l in o.ev if l.op == 'loop']
                if not lp:
                    w = must_process(ctx, o, sname, v)
                    ctx.ob(w is False, 'policy', site + '|never', 'with strategy %s, a run passes on none of the %s observations (%s)' % (sname, v, fmt_facts(o)[:300]), fn, detail=o.show())
                for l in lp:
                    for facts, evs, _ in l.a[1]:
                        w = must_process(ctx, Merged(o, facts), sname, v)
                        d = any(True for _ in events(evs, EV))
                        ctx.ob(w is not None and w == d, 'policy', site, 'with strategy %s, at some point of a run a %s observation is %s although it must %s (%s)' % (
                            sname, v, 'passed on' if d else 'dropped', 'be so only depending on its age and kind' if w is None else 'be passed on' if w else 'be dropped',
                            showfacts(facts)), fn, detail=show_ev(l))
    ctx.sample('decision read off from facts about `timestamp + max_age - now`, `drop_deltas` and the kind of value on every path')


def field(o, f):
    return F(o.ret, f)


CONTROL = {'AddCockpit': ['0'], 'RemoveCockpit': ['0'], 'AddHandler': ['0'], 'AddPanelToCockpit': ['cockpit_name', 'panel'],
           'RemovePanelFromCockpit': ['cockpit_name', 'panel_name']}


def control_variants(ctx):
    return [v for v in ctx.adt('TelemetryMessage')['vs'] if v['n'] != 'Observation']


def control_message(ctx, v, name='m'):
    return message(ctx, v['n'], [(f[0], IN('%s.%s' % (name, f[0]))) for f in v['f']])


def p05(ctx):
    ctx.rule('count', 'every message taken from the queue is counted exactly once, as processed or as dropped')
    ctx.rule('batch', 'one run takes as many messages as it may and not more, and does not stop early')
    ctx.rule('queue', 'the reported queue length is that of the queue after the run')
    ctx.rule('alive', 'a processor only gives up its queue when it is disconnected')
    ctx.rule('activity', 'the time of last activity is set exactly when something was processed or dropped')
    ctx.rule('outcome', 'outcomes are combined by adding each number; something happened iff anything was processed or dropped')
    fn = process_fn(ctx)
    fl = flags(ctx)
    clock = [n for n, t in ctx.fields('TelemetryProcessor') if is_adt(t, 'Instant')]

    def common(o, n, what):
        site = '%s|%s' % (fn['p'], what)
        pr, dr = field(o, 'processed'), field(o, 'dropped')
        got = received(o)
        ctx.ob(add(pr, dr) is kint(got), 'count', site + '|total', 'after taking %d messages (%s), processed + dropped is %s' % (
            got, what, show(add(pr, dr))[:100]), fn, detail=o.show())
        ctx.ob(got == n, 'batch', site + '|all', '%d of %d available messages are taken although the limit allows it (%s)' % (got, n, what), fn, detail=o.show())
        evs = [e.a[0] for e in o.ev if e.op == 'ev']
        ln = field(o, 'observations_enqueued')
        after = [e for e in o.ev[max([i for i, e in enumerate(o.ev) if e.op == 'ev' and e.a[0] == RECV], default=-1) + 1:]
                 if e.op == 'ev' and e.a[0] == 'Receiver::len' and e.a[3] is ln]
        ctx.ob(bool(after), 'queue', site, 'the reported number of enqueued observations is %s, not the length of the queue after the run (%s)' % (
            show(ln)[:100], what), fn, detail=o.show())
        for f in fl:
            ctx.ob(F(o.final(SELF), f) in (FALSE, F(SELF, f)), 'alive', '%s|%s' % (site, f), 'the processor stops receiving (`%s`) without being disconnected (%s)' % (
                f, what), fn, detail=o.show())
        for c in clock:
            x = F(o.final(SELF), c)
            if got:
                ctx.ob(is_now(x), 'activity', site, 'a run that took messages leaves the time of last activity at %s (%s)' % (show(x)[:80], what), fn, detail=o.show())
            else:
                ctx.ob(x is F(SELF, c), 'activity', site, 'a run that took nothing sets the time of last activity (%s)' % what, fn, detail=o.show())

    sts = strategies(ctx)
    for sname, st in sts.items():
        for v in OBS:
            for o in step(ctx, [ok(message(ctx, 'Observation', [('0', observation(v))]))], st) or ():
                what = '%s, %s' % (v, sname)
                common(o, 1, what)
                d = delivered(o)
                ctx.ob(field(o, 'processed') is kint(1 if d else 0), 'count', '%s|%s|processed' % (fn['p'], what),
                       'an observation that is %s is counted as %s' % ('passed on' if d else 'not passed on',
                                                                     'dropped' if d else 'processed'), fn, detail=o.show())
        for v in control_variants(ctx):
            for o in step(ctx, [ok(control_message(ctx, v))], st) or ():
                what = '%s, %s' % (v['n'], sname)
                common(o, 1, what)
                ctx.ob(field(o, 'processed') is kint(1), 'count', '%s|%s|processed' % (fn['p'], what),
                       'a %s message is not counted as processed' % v['n'], fn, detail=o.show())
                ctx.ob(field(o, 'instruments_updated') is kint(0), 'count', '%s|%s|updated' % (fn['p'], what),
                       'a %s message is reported as having updated instruments' % v['n'], fn, detail=o.show())
    # several messages, several limits
    for sname in ('ProcessAll', 'DropAll'):
        msg = [ok(message(ctx, 'Observation', [('0', observation('ObservedOne', 'o%d' % i))])) for i in range(4)]
        for mx in (0, 1, 2, 3):
            for o in step(ctx, msg, sts[sname], kint(mx)) or ():
                common(o, mx, 'limit %d, %s' % (mx, sname))
        for o in step(ctx, msg[:2], sts[sname], kint(3)) or ():
            common(o, 2, 'two messages, %s' % sname)
    for o in step(ctx, [], sts['ProcessAll'], kint(2)) or ():
        common(o, 0, 'empty queue')
    # for any limit and any history of messages
    limit(ctx, fn, sts)
    mix = [ok(message(ctx, 'Observation', [('0', observation('ObservedOne'))])), err(agg(TRYERR, 'Empty', ()))]
    mix += [ok(control_message(ctx, v)) for v in control_variants(ctx)]
    for sname, st in sts.items():
        for o in steady(ctx, mix, st) or ():
            for f in fl:
                v = F(o.final(SELF), f)
                good = v in (FALSE, F(SELF, f)) or v.op == 'rec' and v.a[1] in (FALSE, F(SELF, f)) and all(x in (FALSE, F(SELF, f), ME) for _, x in v.a[2])
                ctx.ob(good, 'alive', '%s|any|%s' % (fn['p'], f), 'the processor can stop receiving without being disconnected: `%s` becomes %s' % (f, show(v)[:200]), fn)
    # disconnected
    outs = step(ctx, [err(agg(TRYERR, 'Disconnected', ()))], sts['ProcessAll'], kint(2))
    for o in outs or ():
        for f in ('processed', 'dropped', 'instruments_updated'):
            ctx.ob(field(o, f) is kint(0), 'count', '%s|disconnected|%s' % (fn['p'], f), 'a disconnected queue is counted as %s' % f, fn)
    for f in fl:
        for o in ctx.run(fn, facts=[(F(SELF, f), True)]) or ():
            for n, t in ctx.fields('ProcessingOutcome'):
                ctx.ob(field(o, n) is kint(0), 'count', '%s|given up|%s' % (fn['p'], n), 'a disconnected processor reports %s' % n, fn)
    outcome_rules(ctx)
    ctx.extra['messages'] = list(OBS) + [v['n'] for v in control_variants(ctx)]


def limit(ctx, fn, sts):
    """runs of any length over one kind of message"""
    kinds = [(v, message(ctx, 'Observation', [('0', observation(v))])) for v in OBS]
    kinds += [(v['n'], control_message(ctx, v)) for v in control_variants(ctx)]
    for sname, st in sts.items():
        for kn, msg in kinds:
            obs = kn in OBS
            for o in steady(ctx, [ok(msg)], st) or ():
                site = '%s|%s|%s|any' % (fn['p'], kn, sname)
                total = False
                for n in ('processed', 'dropped'):
                    v = F(o.ret, n)
                    init, chain = rec_parts(v)
                    if len(chain) > 1 or not (isint(init) and init.op == 'k'):
                        ctx.undecided.append('%s: %s is %s for an arbitrary limit' % (site, n, show(v)[:200]))
                        continue
                    ctx.ob(init is kint(0), 'count', site + '|init', '%s starts at %s' % (n, show(init)), fn)
                    for coll, alts in chain:
                        if coll is not None and coll.op == 'app' and coll.a[0] in ('range', 'rangei'):
                            ctx.ob(coll is app('range', kint(0), IN('max')), 'batch', fn['p'] + '|limit', 'the receive loop runs over %s instead of the limit (%s, %s)' % (show(coll), kn, sname), fn)
                            total = True
                        for facts, x in alts:
                            w = must_process(ctx, Merged(o, facts), sname, kn) if obs else True
                            want = None if w is None else ME if w != (n == 'processed') else add(ME, kint(1))
                            ctx.ob(want is x, 'count', '%s|%s' % (site, n), '%s becomes %s for a %s message under %s although it %s (%s)' % (
                                n, show(x)[:80], kn, sname, 'may or may not be passed on' if w is None else 'is passed on' if w else 'is dropped', showfacts(facts)), fn)
                    if not chain and sname != 'DropOlderThan':
                        w = (sname != 'DropAll' if obs else True) == (n == 'processed')
                        if w:
                            ctx.ob(not may_run(o), 'count', site + '|' + n + '|never',
                                   '%s stays 0 for %s messages under %s' % (n, kn, sname), fn)
                if not total and may_run(o):
                    ctx.undecided.append('%s: the receive loop has no recognisable limit' % site)


def may_run(o):
    """can the limit be greater than 0 on this path"""
    r = lin_fact(o.facts, lambda d: d.get(IN('max')) if len(d) == 1 else None)
    return r is None or r[1] >= 1


def outcome_rules(ctx):
    g = ctx.inh('ProcessingOutcome', 'combine_with')
    nums = [n for n, t in ctx.fields('ProcessingOutcome')]
    for o in ctx.run(g) or ():
        for n in nums:
            ctx.ob(F(o.final(SELF), n) is add(F(SELF, n), F(arg(1), n)), 'outcome', '%s|%s' % (g['p'], n),
                   'combining outcomes gives %s for %s' % (show(F(o.final(SELF), n))[:150], n), g)
    g = ctx.inh('ProcessingOutcome', 'something_happened')
    for o in ctx.run(g) or ():
        p = lin_fact(o.facts, lambda d: d.get(F(SELF, 'processed')) if len(d) == 1 else None)
        d = lin_fact(o.facts, lambda d: d.get(F(SELF, 'dropped')) if len(d) == 1 else None)
        s = lin_fact(o.facts, lambda d: d.get(F(SELF, 'dropped')) if len(d) == 2 and d.get(F(SELF, 'dropped')) == d.get(F(SELF, 'processed')) else None)

        def pos(r):
            return None if r is None else True if r[0] >= 1 else False if r[1] <= 0 else None
        w = or3(pos(p), pos(d))
        if w is None:
            w = pos(s)
        ctx.ob(w is not None and o.ret is kbool(w), 'outcome', g['p'], 'something_happened answers %s where processed and dropped say %s' % (
            show(o.ret)[:80], w), g, detail=o.show())
    g = ctx.trait_fn('ProcessingOutcome', 'Default', 'default')
    for o in ctx.run(g) or ():
        for n in nums:
            ctx.ob(F(o.ret, n) is kint(0), 'outcome', '%s|%s' % (g['p'], n), 'the empty outcome has %s = %s' % (n, show(F(o.ret, n))[:60]), g)


# ---------------------------------------------------------------------------- control messages
def assignments(key, extra=()):
    """all joint assignments of the atoms in a family of fact sets, and whether the family covers them"""
    atoms = []
    for f in key:
        for a, _ in f:
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 6 or any(isinstance(universe(a), tuple) for a in atoms):
        return None
    res = [{}]
    for a in atoms:
        res = [dict(r, **{}) | {a: frozenset((x,))} for r in res for x in sorted(universe(a), key=str)]
    return [(r, any(all(r[a] <= s for a, s in f) for f in key)) for r in res]


def named(facts, obj, name):
    """does the name of obj equal `name` under these facts (three valued)"""
    nm = F(obj, 'name')
    s = facts.get(mk('disc', nm, frozenset(('None', 'Some'))))
    if s == frozenset(('None',)):
        return False
    q = cmp_eq(F(nm, 'Some.0'), name)
    at, sat = as_test(q)
    e = facts.get(at)
    if e is None:
        return None
    if not inter(e, sat):
        return False
    if inter(e, sat) == e and s == frozenset(('Some',)):
        return True
    return None


def exactly_unnamed(key, coll, name):
    """the family of fact sets `key` about an element of coll describes exactly the elements not named `name`"""
    ass = assignments(key)
    if ass is None:
        return None
    for r, covered in ass:
        m = named({a: s for a, s in r.items()}, mk('elem', coll), name)
        if covered and m is not False:
            return False
        if not covered and m is not True:
            return False
    return True


def has_named(o_facts, coll, name):
    """do the facts say that coll has an element of that name"""
    for a, s in o_facts.items():
        if a.op == 'exists' and a.a[0] is coll and len(s) == 1:
            if exactly_unnamed(a.a[1], coll, name):
                return True in s
    return None


def parts_kept(ctx, rule, site, o, coll, what, fn):
    """nothing takes the place of an element of the list"""
    e = mk('elem', coll)
    ctx.ob(o.final(e) is e, rule, site + '|parts', '%s: changes what is in %s: %s' % (what, show(coll)[:80], show(o.final(e))[:150]), fn, detail=o.show())


def check_added(ctx, rule, site, o, before, after, item, what, fn):
    """item was appended to `before` unless it is named like an element of it"""
    parts_kept(ctx, rule, site, o, before, what, fn)
    nm = F(item, 'name')
    s = o.facts.get(mk('disc', nm, frozenset(('None', 'Some'))))
    if s == frozenset(('None',)):
        dup = False
    else:
        dup = has_named(o.facts, before, F(nm, 'Some.0'))
        dup = and3(None if s is None else True, dup) if dup is not False else False
    ctx.ob(dup is not None, rule, site + '|basis', '%s: whether it is added does not depend on exactly whether one of the same name is present' % what, fn, detail=o.show())
    if dup is False:
        ctx.ob(after is lst(before, [item]), rule, site + '|added', '%s: it is not appended (the list becomes %s)' % (what, show(after)[:200]), fn, detail=o.show())
    elif dup is True:
        ctx.ob(after is before, rule, site + '|kept', '%s: one of the same name is present, yet the list becomes %s' % (what, show(after)[:200]), fn, detail=o.show())


def check_removed(ctx, rule, site, o, before, after, name, what, fn):
    parts_kept(ctx, rule, site, o, before, what, fn)
    if any(mentions(after, lambda n: n.op == 'rec' and n.a[1] is b) for b in (before,)):
        ctx.undecided.append('%s: elements are removed in a loop of its own' % what)
        return
    good = after.op == 'filtered' and after.a[0] is before and exactly_unnamed(after.a[1], before, name)
    ctx.ob(bool(good), rule, site, '%s: the list becomes %s instead of all elements that are not named so' % (what, show(after)[:300]), fn, detail=o.show())


def others_unchanged(ctx, rule, site, o, changed, what, fn, inside=()):
    """no field of self other than those in `changed` differs"""
    fin = o.final(SELF)
    for n, t in ctx.fields('TelemetryProcessor'):
        if n not in changed:
            if is_adt(t, 'Vec') and n not in inside:
                parts_kept(ctx, rule, '%s|%s' % (site, n), o, F(SELF, n), what, fn)
            ctx.ob(F(fin, n) is F(SELF, n), rule, '%s|%s' % (site, n), '%s: also changes `%s` to %s' % (what, n, show(F(fin, n))[:150]), fn, detail=o.show())


def p06(ctx):
    ctx.rule('direct', 'adding appends unless one of the same name is present; removing removes exactly those of that name')
    ctx.rule('message', 'a control message does the same to the processor (or to the cockpit it names), whatever the processing strategy')
    ctx.rule('blocking', 'a control message is sent in the waiting way exactly when asked to block on a full queue')
    import transmit
    transmit.messages(ctx, transmit.CONTROL)
    fld = lambda ty, item: ctx.field_by(ty, lambda t: is_adt(t, 'Vec') and is_adt(unbox(t['a'][0]), item) or
                                        is_adt(t, 'Vec') and t['a'][0].get('k') == 'adt' and unbox(t['a'][0])['k'] == 'dyn' and
                                        tyname(unbox(t['a'][0])['p']) == item, 'list of ' + item)
    ck, pn, hd = fld('TelemetryProcessor', 'Cockpit'), fld('Cockpit', 'Panel'), fld('TelemetryProcessor', 'HandlesObservations')
    clock = [n for n, t in ctx.fields('TelemetryProcessor') if is_adt(t, 'Instant')]
    for ty, m, coll, kind in (('TelemetryProcessor', 'add_cockpit', ck, 'add'), ('TelemetryProcessor', 'remove_cockpit', ck, 'remove'),
                              ('Cockpit', 'add_panel', pn, 'add'), ('Cockpit', 'remove_panel', pn, 'remove')):
        fn = ctx.inh(ty, m, opt=True)
        if fn is None:
            continue
        for o in ctx.run(fn) or ():
            before, after = F(SELF, coll), F(o.final(SELF), coll)
            site = fn['p']
            if kind == 'add':
                check_added(ctx, 'direct', site, o, before, after, arg(1), '%s::%s' % (ty, m), fn)
            else:
                check_removed(ctx, 'direct', site, o, before, after, arg(1), '%s::%s' % (ty, m), fn)
    fn = process_fn(ctx)
    for sname, st in strategies(ctx).items():
        for v in control_variants(ctx):
            outs = step(ctx, [ok(control_message(ctx, v))], st)
            if outs is None:
                continue
            m = lambda f: IN('m.' + f)
            for o in outs:
                if received(o) != 1:
                    continue
                fin = o.final(SELF)
                site = '%s|%s|%s' % (fn['p'], v['n'], sname)
                what = 'message %s under %s' % (v['n'], sname)
                ctx.ob(not delivered(o), 'message', site + '|silent', what + ' is given to instruments', fn)
                if v['n'] == 'AddCockpit':
                    check_added(ctx, 'message', site, o, F(SELF, ck), F(fin, ck), m('0'), what, fn)
                    others_unchanged(ctx, 'message', site, o, [ck] + clock, what, fn)
                elif v['n'] == 'RemoveCockpit':
                    check_removed(ctx, 'message', site, o, F(SELF, ck), F(fin, ck), m('0'), what, fn)
                    others_unchanged(ctx, 'message', site, o, [ck] + clock, what, fn)
                elif v['n'] == 'AddHandler':
                    ctx.ob(F(fin, hd) is lst(F(SELF, hd), [m('0')]), 'message', site, '%s: the handlers become %s' % (what, show(F(fin, hd))[:200]), fn)
                    others_unchanged(ctx, 'message', site, o, [hd] + clock, what, fn)
                elif v['n'] in ('AddPanelToCockpit', 'RemovePanelFromCockpit'):
                    others_unchanged(ctx, 'message', site, o, clock, what, fn, [ck])
                    in_cockpit(ctx, site, o, v['n'], ck, pn, m, what, fn)
                else:
                    ctx.undecided.append('message %s is not specified' % v['n'])


def in_cockpit(ctx, site, o, kind, ck, pn, m, what, fn):
    cks = F(SELF, ck)
    c = mk('elem', cks)
    fin = o.final(c)
    lp = [l for l in o.ev if l.op == 'loop' and l.a[0] is cks]
    if lp:
        # a traversal of all cockpits that changes those of the right name
        for l in lp:
            for facts, evs, wr in l.a[1]:
                mt = named(dict(facts), c, m('cockpit_name'))
                w = dict(wr).get(c, c)
                ctx.ob(mt is not None, 'message', site + '|which', what + ': which cockpit is changed does not depend on exactly its name', fn, detail=o.show())
                if mt is False:
                    ctx.ob(w is c, 'message', site + '|other', what + ': another cockpit is changed', fn, detail=o.show())
                elif mt:
                    if kind == 'RemovePanelFromCockpit':
                        check_removed(ctx, 'message', site, o, F(c, pn), F(w, pn), m('panel_name'), what, fn)
        return
    has = has_named(o.facts, cks, m('cockpit_name'))
    ctx.ob(has is not None, 'message', site + '|which', what + ': which cockpit is changed does not depend on exactly its name', fn, detail=o.show())
    if has is False:
        ctx.ob(fin is c, 'message', site + '|other', what + ': a cockpit of another name is changed', fn, detail=o.show())
    elif has:
        if kind == 'AddPanelToCockpit':
            check_added(ctx, 'message', site, o, F(c, pn), F(fin, pn), m('panel'), what, fn)
        else:
            check_removed(ctx, 'message', site, o, F(c, pn), F(fin, pn), m('panel_name'), what, fn)
        for n, _ in ctx.fields('Cockpit'):
            if n != pn:
                ctx.ob(F(fin, n) is F(c, n), 'message', '%s|%s' % (site, n), what + ': also changes the cockpit\'s `%s`' % n, fn)
