"""The telemetry driver and the mounts: who is processed when, and how the worker reacts to commands."""
from spec import *
from delivery import script, SCRIPT
from processing import lin_fact, is_now, RECV, TRYERR, outcome_rules

PROC = 'ProcessesTelemetryMessages::process'
PUT = 'PutsSnapshot::put_snapshot'
LOAD = ('script', 'load')
NONE = agg(OPT, 'None', ())


def dmsg(ctx, v, *vals):
    return ok(agg(ctx.adt('DriverMessage')['p'], v, [(str(i), x) for i, x in enumerate(vals)]))


def EMPTY():
    return err(agg(TRYERR, 'Empty', ()))


def worker(ctx, opt=False):
    """the worker function: takes a receiver of driver messages and loops"""
    c = []
    for f in ctx.data['fns']:
        if f['kind'] == 'Closure' or f.get('impl_self') or not f.get('body'):
            continue
        b = f['body']
        tys = [strip_refs(b['locals'][i + 1]) for i in range(b['argc'])]
        if any(is_adt(t, 'Receiver') and is_adt(unbox(t['a'][0]), 'DriverMessage') for t in tys) and \
                any(is_adt(t, 'AtomicBool') or is_adt(t, 'Atomic') for t in tys):
            c.append(f)
    if len(c) != 1:
        raise Missing('worker function of the driver')
    return c[0]


def worker_args(ctx, fn, over):
    b = fn['body']
    out, roles = [], {}
    for i in range(b['argc']):
        t = strip_refs(b['locals'][i + 1])
        role = None
        if is_adt(t, 'Receiver'):
            role = 'rx'
        elif is_adt(t, 'AtomicBool') or is_adt(t, 'Atomic'):
            role = 'running'
        elif is_adt(t, 'ProcessingStrategy'):
            role = 's0'
        elif is_adt(t, 'Descriptives'):
            role = 'desc'
        elif is_adt(t, 'Option'):
            role = 'metrics'
        if role is None:
            raise Missing('worker argument %d' % i)
        roles[role] = i
        out.append(over.get(role, IN(role)))
    return out


def outcome(ctx, **k):
    p = ctx.adt('ProcessingOutcome')['p']
    return agg(p, None, [(n, kint(k.get(n, 0))) for n, _ in ctx.fields('ProcessingOutcome')])


def run_worker(ctx, msgs, n, res, metrics=None, desc=None, layout=False, anyn=False, clock=False,
               inline=False):
    """paths of the worker when it may run for n rounds and receives `msgs` one by one, each processor reporting `res`"""
    fn = worker(ctx)
    ov = script(msgs)

    def load(call):
        k = call.st.cnt.get(LOAD, 0)
        call.st.cnt[LOAD] = k + 1
        call.e.event(call.st, 'round', UNIT, (), kint(k), tuple(call.span))
        return [(call.st, kbool(k < n))]
    ov['AtomicBool::load'] = load
    ov['Atomic::load'] = load

    def process(call):
        recv = call.e.locname(call.st, call.args[0])
        r = res(recv) if callable(res) else res
        call.e.event(call.st, PROC, recv, tuple(call.e.resolve(call.st, x) for x in call.args[1:]), r, tuple(call.span))
        return [(call.st, r)]
    ov[PROC] = process

    def put(call):
        recv = call.e.locname(call.st, call.args[0])
        into = call.e.locname(call.st, call.args[1])
        call.e.event(call.st, PUT, recv, (into,) + tuple(call.e.resolve(call.st, x) for x in call.args[2:]), UNIT, tuple(call.span))
        return [(call.st, UNIT)]
    if not layout:
        ov[PUT] = put

    def now(call):
        return [(call.st, mk('call', 'now', 0))]
    def tick(call):
        n, k = call.e.callnode(call.st, 'now', ())
        call.e.event(call.st, 'clock', UNIT, (), n, tuple(call.span))
        if call.name.endswith('elapsed'):
            return [(call.st, add(n, call.e.resolve(call.st, call.e.content(call.st, call.args[0])), -1))]
        return [(call.st, n)]
    if clock:
        ov['Instant::now'] = ov['Instant::elapsed'] = tick
    else:
        ov['Instant::now'] = now
        ov['Instant::elapsed'] = lambda call: [(call.st, add(mk('call', 'now', 0), call.e.resolve(call.st, call.e.content(call.st, call.args[0])), -1))]
    if anyn:
        # the driver already has any number of processors and snapshooters
        def vec_new(call):
            ts = [unbox(t) for t in call.info.get('cargs', []) if isinstance(t, dict)]
            if ts and ts[0]['k'] == 'dyn' and tyname(ts[0]['p']) == 'ProcessesTelemetryMessages':
                return [(call.st, IN('procs'))]
            if ts and ts[0]['k'] == 'dyn' and tyname(ts[0]['p']) == 'PutsSnapshot':
                return [(call.st, IN('shooters'))]
            return [(call.st, lst(None, ()))]
        for q in ('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity'):
            ov[q] = vec_new
    noop = lambda call: [(call.st, UNIT)]
    for q in ('util::log_info', 'util::log_warning', 'driver::log_outcome'):
        ov[q] = noop
    d = desc if desc is not None else agg(ctx.adt('Descriptives')['p'], None, [(x, NONE) for x, _ in ctx.fields('Descriptives')])
    return ctx.run(fn, args=worker_args(ctx, fn, {'metrics': metrics if metrics is not None else NONE, 'desc': d}), overrides=ov, unroll=LOAD,
                   barrier=set(BARRIER) | (set() if inline else {'DriverInstruments::put_snapshot'}))


def rounds(o):
    """events of each round of the worker loop"""
    r = []
    for e in o.ev:
        if e.op == 'ev' and e.a[0] == 'round':
            r.append([])
        elif r:
            r[-1].append(e)
    return r


def evs(seg, name):
    return [e for e, _ in events(seg, name)]


def sends(seg):
    return [e for e, _ in events(seg) if e.a[0].endswith('Sender::send')]


def p08(ctx):
    ctx.rule('run', 'in every round in which the driver is not paused each added processor is processed exactly once with the strategy last set')
    ctx.rule('pause', 'while paused no processor is processed, and commands are still carried out')
    ctx.rule('command', 'every command is taken exactly once and in order; commands change nothing but what they are for')
    ctx.rule('reply', 'a snapshot request is answered exactly once, on its own channel, with that request\'s snapshot')
    commands(ctx)
    fn = worker(ctx)
    p, q, s1 = IN('p0'), IN('p1'), IN('s1')
    sn, tx = IN('snap'), IN('tx')
    A = lambda x: ('add', x, dmsg(ctx, 'AddProcessor', x))
    S = lambda x: ('strategy', x, dmsg(ctx, 'SetProcessingStrategy', x))
    PA = ('pause', None, dmsg(ctx, 'Pause'))
    RE = ('resume', None, dmsg(ctx, 'Resume'))
    SS = lambda x: ('snapooter', x, dmsg(ctx, 'AddSnapshooter', x))
    G1 = ('snapshot', (sn, tx), dmsg(ctx, 'GetSnapshotSync', sn, tx, IN('descriptive')))
    G2 = ('snapshot', (sn, tx), dmsg(ctx, 'GetSnapshotAsync', sn, tx, IN('descriptive')))
    NO = ('nothing', None, EMPTY())
    scripts = [
        ('two processors', [A(p), A(q), NO]),
        ('strategy', [A(p), S(s1), NO, A(q)]),
        ('pause and resume', [A(p), PA, NO, A(q), RE, NO]),
        ('pause twice', [A(p), PA, PA, RE, NO, NO]),
        ('resume first', [RE, A(p), RE, NO, NO]),
        ('strategy while paused', [A(p), PA, S(s1), RE, NO]),
        ('sync snapshot', [A(p), G1, NO, G1]),
        ('async snapshot', [A(p), G2, NO, G2]),
        ('snapshot while paused', [A(p), PA, G1, G2, RE, NO]),
        ('snapshooter', [SS(IN('sh')), A(p), G1, NO]),
    ]
    variants = {v['n'] for v in ctx.adt('DriverMessage')['vs']}
    known = {'AddProcessor', 'AddSnapshooter', 'GetSnapshotSync', 'GetSnapshotAsync', 'SetProcessingStrategy', 'Pause', 'Resume'}
    for v in variants - known:
        ctx.undecided.append('driver message %s is not specified' % v)
    results = {'quiet': outcome(ctx), 'busy': outcome(ctx, processed=101), 'dropping': outcome(ctx, dropped=1, processed=1)}
    for name, sc in scripts:
        for rn, res in results.items():
            n = len(sc) + 1
            outs = run_worker(ctx, [m for _, _, m in sc], n, res)
            if outs is None:
                continue
            ctx.ob(bool(outs), 'command', '%s|%s|%s|runs' % (fn['p'], name, rn), 'the worker never gets through the commands', fn)
            for o in outs:
                check_script(ctx, fn, o, name + ', ' + rn, sc, n)
    # the same with any number of processors already there
    for name, sc in scripts:
        sc = [x for x in sc if x[0] not in ('add', 'snapooter')]
        outs = run_worker(ctx, [m for _, _, m in sc], len(sc) + 1, IN('outcome'), anyn=True)
        if not outs or not any(mentions(e, lambda t: t is IN('procs')) for o in outs for e in o.ev):
            ctx.extra.setdefault('not run for any number of processors', []).append(name)
            continue
        for o in outs:
            check_script(ctx, fn, o, name + ', any number', sc, len(sc) + 1, anyn=True)
    ctx.extra['scenarios'] = [n for n, _ in scripts]
    ctx.extra['processor results'] = list(results)


def check_script(ctx, fn, o, name, sc, n, anyn=False):
    site = '%s|%s' % (fn['p'], name)
    segs = rounds(o)
    ctx.ob(len(segs) == n + 1, 'command', site + '|rounds', 'the worker ends after %d of %d rounds although nothing stopped it (%s)' % (len(segs) - 1, n, name), fn, detail=o.show())
    if segs and len(segs) == n + 1:
        ctx.ob(not segs[-1], 'command', site + '|end', 'the worker goes on after it was stopped (%s)' % name, fn, detail=o.show())
    got = [e.a[3].a[2][0][1] if e.a[3].op == 'agg' else None for e in o.ev if e.op == 'ev' and e.a[0] == RECV]
    want = [m.a[2][0][1] for k, _, m in sc if k != 'nothing']
    ctx.ob(got == want, 'command', site + '|taken', '%d of %d commands are taken (%s)' % (len(got), len(want), name), fn, detail=o.show())
    procs, strat, paused = [mk('elem', IN('procs'))] if anyn else [], {IN('s0')}, {False}
    idx = 0
    flat = [x for x in sc if x[0] != 'nothing']
    for k, seg in enumerate(segs[:n]):
        took = [e for e in seg if e.op == 'ev' and e.a[0] == RECV]
        new, strat2, paused2 = [], set(strat), set(paused)
        replies = []
        for _ in took:
            if idx >= len(flat):
                break
            kind, x, _m = flat[idx]
            idx += 1
            if kind == 'add':
                new.append(x)
            elif kind == 'strategy':
                strat2 = strat2 | {x}
                after = {x}
            elif kind == 'pause':
                paused2 = paused2 | {True}
            elif kind == 'resume':
                paused2 = paused2 | {False}
            elif kind == 'snapshot':
                replies.append(x)
        pe = evs(seg, PROC)
        names = [e.a[1] for e in pe]
        if anyn:
            el = mk('elem', IN('procs'))
            lps = [l for l in loops(seg) if l.a[0] is not None and norm(l.a[0]) is IN('procs') and any(True for _ in events((l,), PROC))]
            for l in lps:
                for alt in l.a[1]:
                    cnt = sum(1 for e, _ in events(alt[1], PROC) if norm(e.a[1]) is el)
                    ctx.ob(cnt == 1, 'run', site + '|each', 'one of the processors is processed %d times in one round (%s)' % (cnt, name), fn, detail=o.show())
                ctx.ob(l.a[2], 'run', site + '|all', 'not every processor is processed in a round (%s)' % name, fn, detail=o.show())
            names = [x for x in names if norm(x) is not el] + [el] * len(lps)
        if paused2 == {True}:
            ctx.ob(not pe, 'pause', site + '|paused', 'processors are processed while the driver is paused (%s)' % name, fn, detail=o.show())
        else:
            must = list(procs)
            if pe or paused2 == {False}:
                for x in must:
                    ctx.ob(names.count(x) == 1, 'run', '%s|%s' % (site, show(x)), 'a processor is processed %d times in one round (%s)' % (names.count(x), name), fn, detail=o.show())
            for x in new:
                ctx.ob(names.count(x) <= 1, 'run', '%s|%s|new' % (site, show(x)), 'a new processor is processed %d times in one round (%s)' % (names.count(x), name), fn, detail=o.show())
            for x in names:
                ctx.ob(x in must or x in new, 'run', site + '|unknown', 'something else than the added processors is processed: %s (%s)' % (show(x)[:80], name), fn)
            for e in pe:
                ctx.ob(e.a[2][1] in strat2, 'run', site + '|strategy', 'a processor is given the strategy %s instead of %s (%s)' % (
                    show(e.a[2][1])[:80], ' or '.join(show(x) for x in strat2), name), fn, detail=o.show())
                mx = e.a[2][0]
                ctx.ob(mx.op == 'k' and isint(mx) and mx.a[1] > 0, 'run', site + '|max', 'a processor is told to take %s messages (%s)' % (show(mx)[:60], name), fn)
        # replies
        se = sends(seg)
        ctx.ob(len(se) == len(replies), 'reply', site + '|count', '%d replies are sent for %d snapshot requests (%s)' % (len(se), len(replies), name), fn, detail=o.show())
        for e, (sn, tx) in zip(se, replies):
            ctx.ob(norm(e.a[1]) is tx, 'reply', site + '|channel', 'the snapshot is sent to %s (%s)' % (show(e.a[1])[:80], name), fn)
            b = e.a[2][0]
            while b.op in ('upd', 'post') or b.op == 'lst' and b.a[0] is not None:
                b = b.a[0] if b.op != 'post' else b.a[-1]
            ctx.ob(mentions(e.a[2][0], lambda t: t is sn), 'reply', site + '|what', 'the reply is %s, not the snapshot of this request (%s)' % (show(e.a[2][0])[:120], name), fn)
        puts = evs(seg, PUT)
        if not replies:
            ctx.ob(not puts, 'command', site + '|noput', 'a snapshot is taken without a request (%s)' % name, fn)
        # what holds from the next round on
        idx2 = idx
        procs += new
        for _ in took:
            pass
        for kind, x, _m in flat[idx - len(took):idx]:
            if kind == 'strategy':
                strat2 = {x}
            elif kind == 'pause':
                paused2 = {True}
            elif kind == 'resume':
                paused2 = {False}
        strat, paused = strat2, paused2


# ---------------------------------------------------------------------------- mounts
def each_processed(ctx, rule, ty, site_what):
    """ty::process gives every processor it holds `max` and the strategy once and adds up what they report"""
    fn = ctx.trait_fn(ty, 'ProcessesTelemetryMessages', 'process')
    sl = slots(ctx.db, ctx.adt(ty)['p'], 'ProcessesTelemetryMessages', SELF)
    ctx.ob(bool(sl), rule, ty + '|slots', ty + ' holds nothing to process', fn)
    outs = ctx.run(fn)
    clock = [n for n, t in ctx.fields(ty) if is_adt(t, 'Instant')]
    for o in outs or ():
        check_slots(ctx, rule, fn, o.ev, o.facts, sl, PROC, lambda e: e.a[2][0] is arg(1) and e.a[2][1] is arg(2), ty)
        for n, _ in ctx.fields('ProcessingOutcome'):
            field_sum(ctx, 'sum', fn, F(o.ret, n), n, sl, ty)
        if clock:
            activity(ctx, fn, o, clock, ty)
    return fn


def field_sum(ctx, rule, fn, val, n, sl, what):
    ls = linsum(val)
    if ls is None:
        ctx.undecided.append('%s: %s is %s' % (fn['p'], n, show(val)[:200]))
        return
    terms, c = ls
    left, bad = dict(terms), []
    if c:
        bad.append('constant %s' % c)
    for s in sl:
        hit = [k for k in left if k[1].op == 'f' and k[1].a[1] == n and k[1].a[0].op == 'call' and k[1].a[0].a[0] == PROC and
               norm(k[1].a[0].a[2]) is s.recv and (k[0] is None) == (s.coll is None)]
        if len(hit) != 1 or left[hit[0]] != 1:
            bad.append('`%s` of `%s` counted %s times' % (n, s.label, sum(left[h] for h in hit)))
        for h in hit:
            del left[h]
    bad += ['extra term ' + show(k[1])[:150] for k in left]
    ctx.ob(not bad, rule, '%s|%s' % (fn['p'], n), '%s: the reported `%s` is not the sum over everything processed: %s' % (what, n, '; '.join(bad[:3])), fn)


def positive(o, x):
    """is the sum x known to be positive / zero"""
    if x.op == 'k':
        return x.a[1] > 0
    d, c = lin_of(x)
    at = cmp_int('lt', kint(0), x)
    return truth(o, at)


def activity(ctx, fn, o, clock, what):
    pr, dr = positive(o, F(o.ret, 'processed')), positive(o, F(o.ret, 'dropped'))
    w = True if True in (pr, dr) else False if pr is False and dr is False else None
    if w is None:
        w = positive(o, add(F(o.ret, 'processed'), F(o.ret, 'dropped')))
    for c in clock:
        x = F(o.final(SELF), c)
        moved = x is not F(SELF, c)
        ctx.ob(not moved or is_now(x), 'activity', '%s|%s|now' % (fn['p'], c), '%s: the time of last activity becomes %s' % (what, show(x)[:100]), fn)
        if w is None:
            ctx.ob(False, 'activity', '%s|%s' % (fn['p'], c), '%s: whether the time of last activity is %s does not depend on exactly whether something '
                   'was processed or dropped' % (what, 'set' if moved else 'kept'), fn, detail=o.show())
        else:
            ctx.ob(moved == w, 'activity', '%s|%s' % (fn['p'], c), '%s: the time of last activity is %s although %s was processed or dropped' % (
                what, 'set' if moved else 'not set', 'something' if w else 'nothing'), fn, detail=o.show())


def p07(ctx):
    ctx.rule('each', 'a mount passes the limit and the strategy to each of its processors exactly once per run')
    ctx.rule('sum', 'what it reports is the sum of what its processors report, for every number')
    ctx.rule('activity', 'its time of last activity is set exactly when something below it was processed or dropped')
    ctx.rule('add', 'processors and snapshooters added to a mount are appended')
    ctx.rule('outcome', 'outcomes are combined by adding each number')
    each_processed(ctx, 'each', 'ProcessorMount', '')
    outcome_rules(ctx)
    adders(ctx, 'ProcessorMount')


def adders(ctx, ty):
    lists = {n: t for n, t in ctx.fields(ty) if is_adt(t, 'Vec')}
    found = 0
    for f in ctx.data['fns']:
        t = f.get('impl_self')
        if not t or t['k'] != 'adt' or tyname(t['p']) != ty or f['kind'] == 'Closure' or not (f.get('name') or '').startswith('add_'):
            continue
        kind = 'ProcessesTelemetryMessages' if 'processor' in f['name'] else 'PutsSnapshot' if 'snapshooter' in f['name'] else None
        if kind is None:
            continue
        coll = [n for n, t in lists.items() if unbox(t['a'][0])['k'] == 'dyn' and tyname(unbox(t['a'][0])['p']) == kind]
        for o in ctx.run(f) or ():
            found += 1
            fin = o.final(SELF)
            for n, _ in ctx.fields(ty):
                want = lst(F(SELF, n), [arg(1)]) if n in coll else F(SELF, n)
                ctx.ob(F(fin, n) is want, 'add', '%s|%s' % (f['p'], n), '%s leaves `%s` as %s' % (f['name'], n, show(F(fin, n))[:150]), f)
    ctx.ob(found >= 2, 'add', ty, 'no function adds to ' + ty)


# ---------------------------------------------------------------------------- attached mounts
def p28(ctx):
    ctx.rule('wire', 'attaching a mount registers exactly that mount and returns a handle whose queue is the one the mount reads')
    ctx.rule('send', 'a handle sends what is put on it, once, to its own mount')
    ctx.rule('take', 'before each run everything that arrived is added to the mount in order, nothing is lost and the queue is kept while it is connected')
    ctx.rule('run', 'each run passes on the limit and the strategy once and returns the mount\'s outcome')
    ctx.rule('gone', 'a handle that goes sends nothing')
    quiet_drops(ctx, 'gone', 'AttachedMount', 'InternalAttachedMount', 'ScopedMountMessage')
    SM = ctx.adt('ScopedMountMessage')['p']
    # sending
    for f in ctx.data['fns']:
        t = f.get('impl_self')
        if not t or t['k'] != 'adt' or tyname(t['p']) != 'AttachedMount' or f['kind'] == 'Closure':
            continue
        nm = f.get('name') or ''
        want = 'Processor' if nm.endswith('_processor') else 'Snapshooter' if nm.endswith('_snapshooter') else None
        if want is None:
            continue
        for o in ctx.run(f) or ():
            se = sends(o.ev)
            ok_ = len(se) == 1 and se[0].a[1] is F(SELF, 'sender') and se[0].a[2][0] is agg(SM, want, [('0', arg(1))])
            ctx.ob(ok_, 'send', f['p'], '%s sends %s' % (nm, '; '.join(show_ev(e)[:150] for e in se)), f)
    # attaching
    att = [(ctx.inh('AttachedMount', 'attach_mount'), 'AttachedMount', None), (ctx.default_fn('AggregatesProcessors', 'attached_mount'), None, None)]
    mine = [f for f in ctx.data['fns'] if f.get('name') == 'attached_mount' and short(f.get('impl_trait') or '').split('::')[-1] == 'AggregatesProcessors' and f['kind'] != 'Closure']
    att += [(f, tyname(f['impl_self']['p']), None) for f in mine if f['impl_self']['k'] == 'adt']
    adds = {'AggregatesProcessors::add_processor', 'AttachedMount::put_processor'} | {t + '::add_processor' for _, t, _ in att if t}
    for f, ty, _ in att:
        outs = ctx.run(f, barrier=set(BARRIER) | adds)
        for o in outs or ():
            ev_ = [(e.a[1], e.a[2][0]) for e, _ in events(o.ev) if e.a[0] in adds or e.a[0].endswith('Sender::send')]
            fin = o.final(SELF)
            for n, t in ctx.fields(ty) if ty and fin is not SELF else ():
                v = F(fin, n)                                       # put straight into a list of its own
                if v.op == 'list' and v.a[0] is F(SELF, n):
                    ev_ += [(SELF, x) for x in v.a[1]]
                elif v is not F(SELF, n):
                    ctx.ob(False, 'wire', f['p'] + '|other', 'attaching changes `%s` to %s' % (n, show(v)[:100]), f, detail=o.show())
            ctx.ob(len(ev_) == 1, 'wire', f['p'] + '|once', 'attaching registers %d processors' % len(ev_), f, detail=o.show())
            for to, x in ev_:
                if x.op == 'agg' and x.a[1] == 'Processor':
                    x = x.a[2][0][1]
                ctx.ob(to is SELF or to is F(SELF, 'sender'), 'wire', f['p'] + '|to', 'the mount is registered at ' + show(to)[:80], f)
                ctx.ob(F(x, 'inner') is arg(1), 'wire', f['p'] + '|inner', 'what is registered holds %s instead of the mount' % show(F(x, 'inner'))[:100], f)
                snd, rcv = F(o.ret, 'sender'), F(x, 'receiver', 'Some.0')
                ctx.ob(snd.op == 'f' and rcv.op == 'f' and snd.a[0] is rcv.a[0] and snd.a[1] == '0' and rcv.a[1] == '1' and
                       snd.a[0].op == 'call' and snd.a[0].a[0].endswith('unbounded'), 'wire', f['p'] + '|channel',
                       'the handle sends to %s while the mount reads %s' % (show(snd)[:80], show(rcv)[:80]), f)
    # receiving
    fn = ctx.trait_fn('InternalAttachedMount', 'ProcessesTelemetryMessages', 'process')
    rc = F(SELF, 'receiver')
    inner = F(SELF, 'inner')
    lists = {unbox(t['a'][0])['p'].split('::')[-1]: n for n, t in ctx.fields('ProcessorMount') if is_adt(t, 'Vec') and unbox(t['a'][0])['k'] == 'dyn'}
    P_ = lambda x: ok(agg(SM, 'Processor', [('0', IN(x))]))
    S_ = lambda x: ok(agg(SM, 'Snapshooter', [('0', IN(x))]))
    D_ = err(agg(TRYERR, 'Disconnected', ()))
    vs = {v['n'] for v in ctx.adt('ScopedMountMessage')['vs']}
    ctx.ob(vs == {'Processor', 'Snapshooter'}, 'take', 'messages', 'unknown messages to attached mounts: %s' % sorted(vs))
    for name, sc in (('nothing', []), ('two and one', [P_('p'), S_('s'), P_('q')]), ('snapshooters', [S_('s'), S_('t')]),
                     ('last words', [P_('p'), S_('s'), D_]), ('disconnected', [D_])):
        seen = {}

        def process(call, seen=seen):
            st, e = call.st, call.e
            recv = e.locname(st, call.args[0])
            r = mk('call', 'inner', 0)
            e.event(st, PROC, recv, tuple(e.resolve(st, x) for x in call.args[1:]) + (e.resolve(st, e.content(st, call.args[0])),), r, tuple(call.span))
            return [(st, r)]
        ov = script(sc)
        ov[PROC] = process
        outs = ctx.run(fn, overrides=ov, unroll=SCRIPT, facts={mk('disc', rc, frozenset(('None', 'Some'))): frozenset(('Some',))})
        for o in outs or ():
            pe = [e for e, _ in events(o.ev, PROC)]
            site = '%s|%s' % (fn['p'], name)
            ctx.ob(len(pe) == 1, 'run', site + '|once', 'the mount is processed %d times in one run (%s)' % (len(pe), name), fn, detail=o.show())
            if len(pe) != 1:
                continue
            e = pe[0]
            ctx.ob(e.a[1] is inner and e.a[2][0] is arg(1) and e.a[2][1] is arg(2), 'run', site + '|args',
                   'the mount is processed as %s (%s)' % (show_ev(e)[:200], name), fn)
            ctx.ob(o.ret is e.a[3], 'run', site + '|result', 'the reported outcome is %s instead of that of the mount (%s)' % (show(o.ret)[:100], name), fn)
            new = {'Processor': [], 'Snapshooter': []}
            for m in sc:
                if m.a[1] == 'Ok':
                    x = m.a[2][0][1]
                    new[x.a[1]].append(x.a[2][0][1])
            for k, tr in (('Processor', 'ProcessesTelemetryMessages'), ('Snapshooter', 'PutsSnapshot')):
                got = F(e.a[2][2], lists[tr])
                base = F(inner, lists[tr])
                want = lst(base, new[k]) if new[k] else base
                ctx.ob(got is want, 'take', '%s|%s' % (site, k), 'when the mount is processed its %ss are %s (%s)' % (k.lower(), show(got)[:200], name), fn, detail=o.show())
            kept = F(o.final(SELF), 'receiver')
            if D_ not in sc:
                ctx.ob(F(kept, 'Some.0') is F(rc, 'Some.0') and is_some(o, kept), 'take', site + '|kept', 'the queue of the mount is given up while it is connected (%s)' % name, fn, detail=o.show())
    # any number of messages: taking them ends only when there are no more, and the queue is kept
    def always(*vals):
        def f(call):
            return [(call.st.copy(), v) for v in vals]
        return {'Receiver::try_recv': f, 'Receiver::recv': f}
    held = {mk('disc', rc, frozenset(('None', 'Some'))): frozenset(('Some',))}
    for o in ctx.run(fn, overrides=always(P_('p'), S_('s')), facts=held, key='endless') or ():
        ctx.ob(False, 'take', fn['p'] + '|all', 'taking what was sent to the mount ends although there is more', fn, detail=o.show())
    for o in ctx.run(fn, overrides=always(P_('p'), S_('s'), err(agg(TRYERR, 'Empty', ()))), facts=held, key='steady') or ():
        kept = F(o.final(SELF), 'receiver')
        ctx.ob(is_some(o, kept) and norm(F(kept, 'Some.0')) is F(rc, 'Some.0'), 'take', fn['p'] + '|any|kept', 'the queue of the mount can be given up while it is connected', fn, detail=o.show())
    outs = ctx.run(fn, facts={mk('disc', rc, frozenset(('None', 'Some'))): frozenset(('None',))})
    for o in outs or ():
        pe = [e for e, _ in events(o.ev, PROC)]
        ctx.ob(len(pe) == 1 and pe[0].a[2][0] is arg(1) and pe[0].a[2][1] is arg(2) and o.ret is pe[0].a[3], 'run', fn['p'] + '|detached',
               'a mount whose handles are gone is not processed as before', fn, detail=o.show())
    adders_of_inner(ctx)


def adders_of_inner(ctx):
    ctx.rule('add', 'processors and snapshooters added to a mount are appended')
    adders(ctx, 'ProcessorMount')


# ---------------------------------------------------------------------------- lifecycle of the driver
def p09(ctx):
    ctx.rule('flag', 'the flag the worker obeys is the one the handles share; it starts out true')
    ctx.rule('stop', 'the flag is cleared when the last handle is gone, and nowhere else')
    ctx.rule('worker', 'creating a driver starts exactly one worker, with its configuration, reading the queue its handles send to')
    ctx.rule('obey', 'the worker ends at the next round once the flag is cleared or its queue is disconnected, and not before')
    ctx.rule('command', 'every handle method sends exactly its command')
    ctx.rule('answer', 'a snapshot call returns the answer it gets, and waits for it as long as it may come')
    ctx.rule('build', 'the builder passes on what it was given')
    fn = ctx.inh('TelemetryDriver', 'new')
    w = worker(ctx)
    ab = mk('in', 'flag')

    def new_flag(call):
        if call.args[0] not in (TRUE, FALSE):
            return [(call.st, call.args[0])]
        call.e.event(call.st, 'flag', UNIT, (call.e.resolve(call.st, call.args[0]),), ab, tuple(call.span))
        return [(call.st, ab)]
    ov = {'AtomicBool::new': new_flag, 'Atomic::new': new_flag}
    outs = ctx.run(fn, overrides=ov)
    dt = ctx.adt('TelemetryDriver')
    roles = worker_args(ctx, w, {})
    for o in outs or ():
        if o.ret.op != 'agg':
            continue
        fl = [e for e, _ in events(o.ev, 'flag')]
        ctx.ob(len(fl) == 1 and fl[0].a[2][0] is TRUE, 'flag', fn['p'] + '|initial', 'the flag starts out as %s' % [show(e.a[2][0]) for e in fl], fn)
        guards = [n for n, t in ctx.fields('TelemetryDriver') if is_adt(t, 'Arc')]
        ctx.ob(len(guards) == 1 and mentions(F(o.ret, guards[0]), lambda t: t is ab), 'flag', fn['p'] + '|guard',
               'the driver\'s guard does not hold the flag', fn, detail=show(o.ret)[:500])
        sp = [e for e, _ in events(o.ev) if e.a[0].endswith('::spawn')]
        ctx.ob(len(sp) == 1, 'worker', fn['p'] + '|one', '%d workers are started' % len(sp), fn)
        for e in sp:
            cl = [x for x in e.a[2] if x.op == 'clos']
            if not cl:
                ctx.undecided.append('the worker thread runs ' + show_ev(e)[:150])
                continue
            outs2 = run_closure(ctx, cl[0], w)
            if outs2 is None:
                continue
            for args in outs2:
                got = dict(zip([show(r) for r in roles], args))
                ctx.ob(got.get('running') is ab, 'flag', fn['p'] + '|shared', 'the worker obeys %s instead of the shared flag' % show(got.get('running') or UNIT)[:80], fn)
                rx, tx = got.get('rx'), F(o.ret, 'sender')
                ctx.ob(rx is not None and rx.op == 'f' and tx.op == 'f' and rx.a[0] is tx.a[0] and (tx.a[1], rx.a[1]) == ('0', '1'), 'worker', fn['p'] + '|queue',
                       'the worker reads %s while handles send to %s' % (show(rx)[:80], show(tx)[:80]), fn)
                ctx.ob(got.get('s0') is arg(4), 'worker', fn['p'] + '|strategy', 'the worker starts with the strategy ' + show(got.get('s0'))[:80], fn)
                for i, n in ((1, 'name'), (2, 'title'), (3, 'description')):
                    ctx.ob(F(got['desc'], n) is arg(i), 'worker', '%s|%s' % (fn['p'], n), 'the worker is given %s as %s' % (show(F(got['desc'], n))[:80], n), fn)
                m = is_some(o, got['metrics'])
                ctx.ob(m is not None and m is truth(o, arg(5)), 'worker', fn['p'] + '|metrics', 'driver metrics are %s although asked %s' % (m, truth(o, arg(5))), fn)
                ctx.ob(not any(mentions(a, lambda t: t.op == 'agg' and tyname(t.a[0]) in ('DropGuard', 'TelemetryDriver')) for a in args), 'stop', fn['p'] + '|self',
                       'the worker keeps a handle to its own driver', fn)
        for i, n in ((1, 'name'), (2, 'title'), (3, 'description')):
            ctx.ob(F(F(o.ret, 'descriptives'), n) is arg(i), 'build', '%s|%s' % (fn['p'], n), 'the driver has %s as %s' % (show(F(F(o.ret, 'descriptives'), n))[:80], n), fn)
    # clones share the guard
    cl = ctx.trait_fn('TelemetryDriver', 'Clone', 'clone')
    for o in ctx.run(cl) or ():
        for n, t in ctx.fields('TelemetryDriver'):
            if is_adt(t, 'Arc') or is_adt(t, 'Sender'):
                ctx.ob(F(o.ret, n) is F(SELF, n), 'flag', '%s|%s' % (cl['p'], n), 'a clone does not share `%s`' % n, cl)
    quiet_drops(ctx, 'stop', 'TelemetryDriver', 'DriverBuilder')
    # who clears the flag
    def is_flag(t):
        if is_adt(t, 'Arc', 'Box'):
            return is_flag(t['a'][0])
        return is_adt(t, 'AtomicBool') or is_adt(t, 'Atomic') and t['a'] and t['a'][0] == {'k': 'prim', 's': 'bool'}
    gty = [tyname(unbox(t['a'][0])['p']) for n, t in ctx.fields('TelemetryDriver') if is_adt(t, 'Arc') and unbox(t['a'][0])['k'] == 'adt']
    holders = [a for a in ctx.data['adts'] if not a['enum'] and tyname(a['p']) in gty and any(is_flag(f[1]) for f in a['vs'][0]['f'])]
    writes = 0
    for h in holders:
        try:
            d = ctx.trait_fn(tyname(h['p']), 'Drop', 'drop')
        except Missing:
            ctx.ob(False, 'stop', tyname(h['p']) + '|drop', '%s holds the flag but does nothing when it goes' % tyname(h['p']))
            continue
        for o in ctx.run(d) or ():
            st = [e for e, _ in events(o.ev) if e.a[0] == 'atomic-store']
            ctx.ob(len(st) == 1 and st[0].a[2][0] is FALSE and mentions(st[0].a[1], lambda t: t is SELF), 'stop', d['p'], 'dropping the guard does not clear the flag: %s' % [show_ev(e)[:100] for e in st], d)
    ctx.ob(bool(holders), 'stop', 'guard', 'nothing holds the flag')
    hn = {tyname(h['p']) for h in holders}
    for f in ctx.data['fns']:
        if not f.get('body'):
            continue
        for bl in f['body']['blocks']:
            t = bl['t']
            nm = short(t[1]['p']) if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('p') else None
            if nm and nm.startswith('Atomic') and '<bool>' not in t[1]['p'] and 'AtomicBool' not in nm:
                continue
            if nm and nm.split('::')[0] in ('AtomicBool', 'Atomic') and nm.split('::')[1] in ('store', 'swap', 'fetch_and', 'fetch_xor', 'fetch_nand', 'compare_exchange', 'fetch_not'):
                writes += 1
                t2 = f.get('impl_self')
                inside = t2 and t2['k'] == 'adt' and tyname(t2['p']) in hn and f.get('name') == 'drop'
                ctx.ob(bool(inside), 'stop', f['p'] + '|store', 'the flag is changed outside of the guard\'s drop', f)
    # owners of the guard are counted: it may only sit behind an Arc
    for a in ctx.data['adts']:
        for v in a['vs']:
            for fl in v['f']:
                if hn and is_adt(fl[1]['a'][0] if is_adt(fl[1], 'Box', 'Option') else fl[1], *hn):
                    ctx.ob(False, 'stop', a['p'] + '|' + fl[0], 'the guard is owned directly by `%s`, so one handle going stops all' % tyname(a['p']))
    # obeying
    p = IN('p0')
    for k in range(3):
        outs = run_worker(ctx, [dmsg(ctx, 'AddProcessor', p), EMPTY(), EMPTY()], k, outcome(ctx))
        for o in outs or ():
            seg = rounds(o)
            ctx.ob(len(seg) == k + 1, 'obey', '%s|rounds' % w['p'], 'the worker runs %d rounds when its flag is cleared after %d' % (len(seg) - 1, k), w, detail=o.show())
            ctx.ob(not seg[-1] if len(seg) == k + 1 else False, 'obey', '%s|after' % w['p'], 'the worker still acts after its flag was cleared', w, detail=o.show())
    outs = run_worker(ctx, [dmsg(ctx, 'Pause')], 3, outcome(ctx))
    for o in outs or ():
        ctx.ob(len(rounds(o)) == 4 and not rounds(o)[-1], 'obey', w['p'] + '|paused', 'a paused worker does not end with its flag', w, detail=o.show())
    outs = run_worker(ctx, [dmsg(ctx, 'AddProcessor', p), err(agg(TRYERR, 'Disconnected', ()))], 6, outcome(ctx))
    for o in outs or ():
        ctx.ob(len(rounds(o)) <= 3, 'obey', w['p'] + '|disconnected', 'the worker goes on although nobody can send to it', w)
    commands(ctx)
    answers(ctx)
    builder(ctx)


def run_closure(ctx, clos, w):
    """the argument lists with which the thread's closure calls the worker"""
    body = ctx.db.fns.get(clos.a[0])
    if body is None:
        return None
    outs = ctx.run(body, args=[clos], barrier=set(BARRIER) | {short(w['p']), w['p']})
    r = []
    for o in outs or ():
        for e, _ in events(o.ev):
            if e.a[0] in (short(w['p']), w['p']):
                full = [e.a[1]] + list(e.a[2])
                r.append(full)
    if not r:
        ctx.undecided.append('worker call in %s not found: %s' % (body['p'], [show_ev(e)[:80] for o in outs or () for e, _ in events(o.ev)][:3]))
        return None
    return r


COMMANDS = {'pause': ('Pause', 0), 'resume': ('Resume', 0), 'change_processing_stragtegy': ('SetProcessingStrategy', 1)}


def commands(ctx):
    D = ctx.adt('DriverMessage')['p']
    for f in ctx.data['fns']:
        t = f.get('impl_self')
        if not t or t['k'] != 'adt' or tyname(t['p']) != 'TelemetryDriver' or f['kind'] == 'Closure':
            continue
        nm = f.get('name')
        want = None
        if nm in COMMANDS:
            v, k = COMMANDS[nm]
            want = agg(D, v, [(str(i), arg(i + 1)) for i in range(k)])
        elif nm == 'add_processor':
            want = agg(D, 'AddProcessor', [('0', arg(1))])
        elif nm == 'add_snapshooter':
            want = agg(D, 'AddSnapshooter', [('0', arg(1))])
        elif nm in ('snapshot', 'snapshot_async'):
            want = nm
        if want is None:
            continue
        for o in ctx.run(f) or ():
            se = sends(o.ev)
            ctx.ob(len(se) == 1, 'command', f['p'] + '|once', '%s sends %d commands' % (nm, len(se)), f, detail=o.show())
            for e in se:
                ctx.ob(e.a[1] is F(SELF, 'sender'), 'command', f['p'] + '|to', '%s sends to %s' % (nm, show(e.a[1])[:80]), f)
                m = e.a[2][0]
                if isinstance(want, N):
                    ctx.ob(m is want, 'command', f['p'] + '|what', '%s sends %s' % (nm, show(m)[:200]), f)
                else:
                    v = 'GetSnapshotSync' if nm == 'snapshot' else 'GetSnapshotAsync'
                    good = m.op == 'agg' and m.a[1] == v
                    ctx.ob(good, 'command', f['p'] + '|what', '%s sends %s' % (nm, show(m)[:200]), f)
                    if not good:
                        continue
                    vals = [x for _, x in m.a[2]]
                    ctx.ob(vals[-1] is arg(1), 'command', f['p'] + '|descriptive', '%s asks with descriptive = %s' % (nm, show(vals[-1])[:60]), f)
                    ctx.ob(is_empty_snapshot(vals[0]), 'command', f['p'] + '|empty', '%s starts from %s instead of an empty snapshot' % (nm, show(vals[0])[:100]), f)
                    tx = vals[1]
                    ctx.ob(tx.op == 'f' and tx.a[1] == '0' and mentions(o.ret, lambda t: t.op == 'f' and t.a[0] is tx.a[0] and t.a[1] == '1') or
                           any(t.op == 'f' and t.a[0] is tx.a[0] and t.a[1] == '1' for a in o.facts for t in subterms(a)), 'command', f['p'] + '|reply',
                           '%s waits for %s but the reply goes to %s' % (nm, show(o.ret)[:120], show(tx)[:80]), f)


def answers(ctx):
    """a snapshot call returns what was answered, and nothing is wrong with the driver as long as there may be an answer"""
    f = ctx.inh('TelemetryDriver', 'snapshot')

    def receive(call):
        outs = []
        for what in ('answer', 'gone', 'early'):
            if what == 'early' and call.name == 'Receiver::recv':
                continue
            s = call.st.copy()
            call.e.event(s, what, UNIT, (), UNIT, tuple(call.span))
            errs = {'Receiver::recv': ('RecvError', None), 'Receiver::try_recv': ('TryRecvError', 'Empty')}
            ty, v = errs.get(call.name, ('RecvTimeoutError', 'Timeout'))
            outs.append((s, ok(IN('answer')) if what == 'answer' else err(agg('crossbeam_channel::err::' + ty, v if what == 'early' else v and 'Disconnected', ()))))
        return outs
    outs = ctx.run(f, overrides={'Receiver::' + n: receive for n in ('recv', 'try_recv', 'recv_timeout', 'recv_deadline')}) or ()
    for o in outs:
        got = [e.a[0] for e, _ in events(o.ev) if e.a[0] in ('answer', 'gone', 'early')]
        if not got or o.ret.op != 'agg':
            ctx.undecided.append('%s: what it returns is %s' % (f['p'], show(o.ret)[:100]))
            continue
        if o.ret.a[1] == 'Ok':
            ctx.ob(got[-1] == 'answer' and F(o.ret, '0') is IN('answer'), 'answer', f['p'] + '|ok', 'a snapshot call returns %s instead of the answer it got' % show(o.ret)[:100], f, detail=o.show())
        else:
            ctx.ob('answer' not in got, 'answer', f['p'] + '|err', 'a snapshot call fails although it was answered', f, detail=o.show())
            ctx.ob(got[-1] == 'gone', 'answer', f['p'] + '|early', 'a snapshot call gives up while the answer may still come', f, detail=o.show())


def subterms(a):
    r = []

    def f(x):
        r.append(x)
    walk(a, f)
    return r


def is_empty_snapshot(x):
    return x.op == 'agg' and tyname(x.a[0]) == 'Snapshot' and all(v is lst(None, ()) or v.op == 'lst' and not v.a[1] and v.a[0] is None for _, v in x.a[2])


def builder(ctx):
    b = ctx.inh('DriverBuilder', 'build')
    outs = ctx.run(b, barrier=set(BARRIER) | {'TelemetryDriver::new'})
    order = ['name', 'title', 'description', 'processing_strategy', 'with_driver_metrics']
    for o in outs or ():
        ev_ = [e for e, _ in events(o.ev, 'TelemetryDriver::new')]
        ctx.ob(len(ev_) == 1, 'build', b['p'] + '|once', 'build creates %d drivers' % len(ev_), b)
        for e in ev_:
            vals = [e.a[1]] + list(e.a[2])
            for n, v in zip(order, vals):
                ctx.ob(v is F(SELF, n) or v in (TRUE, FALSE) and truth(o, F(SELF, n)) is (v is TRUE), 'build', '%s|%s' % (b['p'], n),
                       'build passes %s as %s' % (show(v)[:80], n), b)
    setters = {'set_name': 'name', 'set_title': 'title', 'set_description': 'description', 'set_processing_strategy': 'processing_strategy',
               'set_driver_metrics': 'with_driver_metrics'}
    for m, fld in setters.items():
        f = ctx.inh('DriverBuilder', m, opt=True)
        if f is None:
            continue
        for o in ctx.run(f) or ():
            for n, t in ctx.fields('DriverBuilder'):
                x = F(o.ret, n)
                if n == fld:
                    good = x is arg(1) or x is some(arg(1)) or x in (TRUE, FALSE) and truth(o, arg(1)) is (x is TRUE)
                else:
                    good = x is F(SELF, n)
                ctx.ob(good, 'build', '%s|%s' % (f['p'], n), '%s makes %s %s' % (m, n, show(x)[:100]), f)
    f = ctx.inh('DriverBuilder', 'new')
    for o in ctx.run(f) or ():
        ctx.ob(F(o.ret, 'name') is some(arg(1)), 'build', f['p'], 'a builder with a name has the name %s' % show(F(o.ret, 'name'))[:80], f)
