"""P27: who waits for whom - effects over the call graph, and locks over the paths of the functions that take them."""
from spec import *

LONGEST = 10 ** 9                           # ns
LOCKS = {'lock', 'read', 'write'}
TRANSMITTER, MESSAGE = 'TelemetryTransmitter', 'TelemetryMessage'
SPAWN = ('std::thread::builder::Builder::spawn', 'std::thread::functions::spawn', 'std::thread::spawn')
CHANNELS = ('crossbeam_channel::', 'std::sync::mpsc', 'std::sync::mpmc')
KINDS = {'receive': 'waits for a message', 'send': 'waits for room in a queue', 'time': 'waits for time to pass', 'thread': 'waits for another thread',
         'lock': 'takes a lock', 'io': 'waits for input or output', 'spin': 'goes round until another thread has changed something'}


def target(callee):
    return str(callee.get('r') or callee.get('p') or '')


def effect(callee):
    """(kind, message type or None) of a call into another crate that may wait, else None"""
    r = target(callee)
    s = callee.get('self') or {}
    m = r.split('::')[-1]
    if any(c in r for c in CHANNELS) or any(str(s.get('p', '')).startswith(c) for c in CHANNELS):
        t = (callee.get('ra') or callee.get('a') or [None])[0]
        if m in ('recv', 'iter', 'into_iter', 'next') and 'try_' not in r and 'TryIter' not in r and 'TryIter' not in str(s.get('p', '')):
            return 'receive', t
        if m in ('recv_timeout', 'recv_deadline', 'send_timeout', 'send_deadline', 'select_timeout', 'ready_timeout'):
            return 'time', t
        if m == 'send':
            return 'send', t
        if m in ('select', 'ready'):
            return 'receive', None
        return None
    if r.startswith('std::thread') or r.startswith('std::sync') or r.startswith('core::hint') or 'crossbeam_utils' in r:
        if m in ('sleep', 'sleep_ms', 'sleep_until', 'park_timeout', 'park_timeout_ms', 'wait_timeout', 'wait_timeout_while', 'wait_timeout_ms'):
            return 'time', None
        if m in ('park', 'join', 'wait', 'wait_while', 'scope'):
            return 'thread', None
        if m in ('yield_now', 'spin_loop', 'snooze', 'spin'):
            return 'spin', None
        if m in LOCKS and ('mutex' in r.lower() or 'rwlock' in r.lower()):
            return 'lock', None
        return None
    if m in ('block_on', 'block_on_stream', 'run_until', 'run_until_stalled'):
        return 'thread', None
    if r.startswith(('std::fs::', 'std::net::', 'std::process::', 'std::io::stdio::Stdin', 'std::io::stdio::stdin', 'std::io::stdio::read')) and m not in ('id', 'abort'):
        return 'io', None
    return None


def fn_items(t, out):
    """functions and closures among generic arguments"""
    if isinstance(t, dict):
        if t.get('k') in ('closure', 'fn', 'fndef') and t.get('p'):
            out.append(t['p'])
        for v in t.values():
            fn_items(v, out)
    elif isinstance(t, list):
        for v in t:
            fn_items(v, out)
    return out


def calls_of(fn):
    for i, b in enumerate(fn['body']['blocks']):
        t = b.get('t')
        if t and t[0] == 'call' and isinstance(t[1], dict):
            yield i, t


def line(t):
    sp = t[6] if len(t) > 6 else None
    return '%s:%s' % tuple(sp[:2]) if sp else ''


def succ(t):
    k = t[0]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    i = {'goto': 1, 'drop': 2, 'call': 4, 'assert': 4}.get(k)
    return [t[i]] if i is not None and len(t) > i and t[i] is not None else []


def cyclic(fn):
    """blocks of the function that lie on a cycle, as components"""
    bs = fn['body']['blocks']
    n = len(bs)
    nxt = [{s for s in succ(b['t']) if 0 <= s < n} if b.get('t') else set() for b in bs]
    reach = []
    for i in range(n):
        seen, todo = set(), list(nxt[i])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += nxt[x]
        reach.append(seen)
    comps = []
    for i in range(n):
        if i in reach[i]:
            c = frozenset(j for j in reach[i] if i in reach[j])
            if c not in comps:
                comps.append(c)
    return comps


class Graph:
    def __init__(self, db):
        self.db = db
        self.threads = []                   # (function started on a thread of its own, started by, line)
        self.made = {}                      # message type -> [(bounded?, capacity or None, fn, line)]
        self.own = {}
        self.edges = {}
        spawned = set()
        for q, f in db.fns.items():
            for i, t in calls_of(f):
                if target(t[1]) in SPAWN or t[1].get('p') in SPAWN:
                    for x in fn_items(t[1].get('a'), []):
                        if x in db.fns:
                            spawned.add(x)
                            self.threads.append((x, q, line(t)))
                            break
        for q, f in db.fns.items():
            own, edges = [], []
            for i, t in calls_of(f):
                c = t[1]
                r = target(c)
                if any(x in r for x in CHANNELS) and r.split('::')[-1] in ('bounded', 'unbounded', 'channel', 'sync_channel', 'at', 'after'):
                    m = (c.get('ra') or c.get('a') or [None])[0]
                    cap = None
                    for a in t[2]:
                        if isinstance(a, list) and a and a[0] == 'k' and isinstance(a[1], dict):
                            cap = a[1].get('v')
                    self.made.setdefault(self.msg(m), []).append((r.split('::')[-1] in ('bounded', 'sync_channel'), cap, q, line(t)))
                e = effect(c)
                if e:
                    own.append((e[0], self.msg(e[1]), line(t)))
                if c.get('rk') == 'item' and r in db.fns:
                    edges.append(r)
                if r in SPAWN or c.get('p') in SPAWN:
                    continue
                edges += [x for x in fn_items(c.get('a'), []) + fn_items(c.get('ra'), []) if x in db.fns]
            own += [('spin', None, l) for l in self.spins(f)]
            pre = q + '::{closure'
            edges += [x for x in db.fns if x.startswith(pre) and '::' not in x[len(pre):] and x not in spawned]
            self.own[q], self.edges[q] = own, [x for x in dict.fromkeys(edges) if x not in spawned]

    def msg(self, t):
        if not isinstance(t, dict):
            return None
        return tyname(t['p']) if t.get('k') == 'adt' else '?' + str(t.get('s', t.get('k')))

    def spins(self, f):
        """loops that retry or look at what only other threads change"""
        look = {}
        for i, t in calls_of(f):
            r = target(t[1])
            m = r.split('::')[-1]
            if any(x in r for x in CHANNELS) and m in ('try_send', 'is_full') or 'sync::atomic' in r and m in ('load', 'compare_exchange', 'compare_exchange_weak') \
                    or m in ('try_lock', 'try_read', 'try_write') and 'std::sync' in r:
                look[i] = (m, line(t))
        if look:
            for comp in cyclic(f):
                ms = {look[i] for i in comp if i in look}
                if ms and not any(m.startswith('compare_exchange') for m, _ in ms):
                    yield sorted(ms)[0][1]

    def reach(self, q):
        """[(kind, message, line, function, chain)] of everything the function may do"""
        out, seen, todo = [], {q}, [(q, (q,))]
        while todo:
            x, chain = todo.pop()
            for k, m, l in self.own.get(x, ()):
                out.append((k, m, l, x, chain))
            for y in self.edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append((y, chain + (y,)))
        return out


def gives_snapshot(f):
    """hands a snapshot taken by another thread to its caller"""
    found = []

    def go(t):
        if isinstance(t, dict):
            if t.get('k') == 'adt' and tyname(t.get('p', '')) == 'Snapshot':
                found.append(1)
            if t.get('k') in ('opaque', 'dyn', 'param', 'alias'):
                return
            for v in t.get('a') or ():
                go(v)
    go(f['body']['locals'][0])
    return bool(found)


def self_ty(f):
    t = f.get('impl_self')
    return tyname(t['p']) if t and t.get('k') == 'adt' else ''


def p27(ctx):
    ctx.rule('wait', 'no function but the ones meant to waits for a message, room in a queue, time or another thread')
    ctx.rule('worker', 'the worker waits for nothing but a limited time')
    ctx.rule('empty', 'nothing goes on asking a queue it has found empty')
    ctx.rule('pause', 'the worker sleeps for at most a second at a time')
    ctx.rule('queue', 'the queues of drivers and mounts and the ways back take every message at once')
    ctx.rule('transmit', 'sending into a queue that may be full waits only when the transmitter is set to')
    ctx.rule('lock', 'no lock is taken again while it is held, and nothing waits or runs the code of others under a lock')
    db = ctx.db
    g = Graph(db)
    ctx.callsites += sum(1 for f in db.fns.values() for _ in calls_of(f))
    ctx.functions |= set(db.fns)
    may_fill = {}
    for m, made in g.made.items():
        b = [x for x in made if x[0]]
        if b and m and not m.startswith('?'):
            may_fill[m] = b
        elif b:
            ctx.undecided.append('%s: a bounded queue of an unknown type of messages' % b[0][2])

    def full(m):
        """the bounded queue a send may find full"""
        for x in may_fill.get(m, ()):
            if m == 'Snapshot' and isinstance(x[1], int) and x[1] >= 1:
                continue                        # a way back, used once
            return x
        return None

    # what waits, from everywhere outside code comes in
    threads = {t[0] for t in g.threads}
    roots = []
    for q, f in sorted(db.fns.items()):
        if f['kind'] == 'Closure' or 'tests::' in q:
            continue
        if f.get('pub') or f.get('impl_trait') or f.get('in_trait'):
            roots.append(f)
    if not threads:
        raise Missing('the thread of the driver')
    if not any(self_ty(f) == 'TelemetryDriver' for f in roots):
        raise Missing('TelemetryDriver')
    for f in roots:
        q = f['p']
        if q in threads:
            continue
        bad = []
        for k, m, l, x, chain in g.reach(q):
            if k == 'lock':
                continue
            if k == 'send':
                if m and m.startswith('?') and may_fill:
                    ctx.undecided.append('%s: sends messages of an unknown type' % x)
                    continue
                b = full(m)
                if b is None or m == MESSAGE and self_ty(db.fns[x.split('::{closure')[0]]) == TRANSMITTER:
                    continue
                bad.append((k, l, x, chain, 'the queue of %s is made with a capacity at %s' % (m, b[3])))
                continue
            if self_ty(f) == 'TelemetryDriver' and (not f.get('impl_trait') and gives_snapshot(f) or f.get('name') == 'put_snapshot') and k in ('receive', 'thread', 'time'):
                continue
            bad.append((k, l, x, chain, ''))
        ctx.ob(not bad, 'wait', q, '' if not bad else '%s %s at %s (%s)%s' % (
            q, KINDS[bad[0][0]], bad[0][1], ' -> '.join(bad[0][3]), bad[0][4] and '; ' + bad[0][4]), f, where=bad[0][1] if bad else None)
    # the worker
    for q, by, l in g.threads:
        bad = []
        for k, m, l2, x, chain in g.reach(q):
            if k == 'send' and full(m) or k in ('receive', 'thread', 'io'):
                bad.append((k, l2, chain))
        ctx.ob(not bad, 'worker', q, '' if not bad else 'the thread started by %s %s at %s (%s)' % (by, KINDS[bad[0][0]], bad[0][1], ' -> '.join(bad[0][2])), db.fns[q],
               where=bad[0][1] if bad else None)
    # queues
    for m, made in sorted(g.made.items(), key=lambda x: str(x[0])):
        if not m or m.startswith('?') or m == MESSAGE:
            continue
        for b, cap, q, l in made:
            ctx.ob(not b or m == 'Snapshot', 'queue', '%s|%s' % (q, m), '%s makes a queue of %s that can be full (%s)' % (q, m, l), db.fns.get(q), where=l)
    transmit(ctx, g, full(MESSAGE))
    pauses(ctx)
    emptied(ctx, threads)
    locks(ctx, g)
    ctx.extra['waiting calls'] = sorted({'%s: %s' % (q.split('::{closure')[0], KINDS[k]) for q, own in g.own.items() for k, m, _ in own if k != 'send' or full(m)})[:60]
    ctx.extra['functions others can call'] = len(roots)


def transmit(ctx, g, bounded):
    if bounded is None:
        return
    for q, own in sorted(g.own.items()):
        if not any(k == 'send' and m == MESSAGE for k, m, _ in own) or '{closure' in q:
            continue
        fn = ctx.db.fns[q]
        outs = ctx.run(fn)
        if outs is None:
            continue
        waits, other = [], []
        for o in outs:
            f = {a: v for a, v in o.facts.items() if a.op in ('bool', 'disc') and any(x.op == 'f' for x in subterms(a))}
            (waits if any(e.a[0].endswith('Sender::send') for e, _ in events(o.ev)) else other).append((o, f))
        # what tells the paths that wait from the others: the setting
        best, hit = None, -1
        for a in sorted({a for _, f in waits for a in f if not mentions(a, lambda x: x.op == 'call')}, key=str):
            for vs in sorted({f[a] for _, f in waits if a in f}, key=str):
                if any(f.get(a, vs) & vs for _, f in other):
                    continue
                n = sum(1 for _, f in waits if f.get(a) == vs)
                if n > hit:
                    best, hit = (a, vs), n
        for o, f in waits:
            ok_ = best is not None and best[0] in f and not (f[best[0]] - best[1]) or any(str(a).find('capacity') >= 0 and v == frozenset(['None']) for a, v in o.facts.items())
            ctx.ob(ok_, 'transmit', q, '%s waits for room in the queue also when the transmitter is not set to' % q, fn, detail=o.show())


def emptied(ctx, threads):
    """rounds of loops in which a queue was found empty and that are not the last"""
    import driving
    from driving import TRYERR
    skip = set(threads) | {driving.worker(ctx)['p']}
    for q, fn in sorted(ctx.db.fns.items()):
        asks = {i for i, t in calls_of(fn) if any(c in target(t[1]) for c in CHANNELS) and target(t[1]).split('::')[-1] == 'try_recv'}
        if not asks or q in skip or fn['kind'] == 'Closure' or '::tests::' in q:
            continue
        names = {short(target(t[1])) for _, t in calls_of(fn)} & {'Receiver::try_recv'} or {'Receiver::try_recv'}

        def ask(call, key=sorted(names)[0]):
            k = call.st.cnt.get(key, 0)
            call.st.cnt[key] = k + 1
            r = err(agg(TRYERR, 'Empty' if k < 3 else 'Disconnected', ()))
            call.e.event(call.st, key, call.e.locname(call.st, call.args[0]), (), r, tuple(call.span))
            return [(call.st, r)]
        tys = fn['body']['locals'][1:1 + fn['body']['argc']]
        args = [SELF if i == 0 and fn.get('impl_self') else kint(3) if prim(t) == 'usize' else arg(i) for i, t in enumerate(tys)]
        outs = ctx.run(fn, overrides={n: ask for n in names}, unroll=sorted(names)[0], args=args)
        ctx.ob(True, 'empty', q, '')
        for o in outs or ():
            n = [e for e, _ in events(o.ev) if e.a[0] in names]
            ctx.ob(len(n) < 2, 'empty', q, '%s goes on asking the queue after it was found empty: it keeps its thread busy waiting for messages' % q, fn, detail=o.show())


def pauses(ctx):
    """how long the worker sleeps when there is nothing to do, and while it is paused"""
    import driving
    fn = driving.worker(ctx)
    for what, msgs in (('idle', []), ('paused', [driving.dmsg(ctx, 'Pause')])):
        for o in driving.run_worker(ctx, msgs, 2, driving.outcome(ctx)) or ():
            for e, _ in events(o.ev):
                if e.a[0].split('::')[-1] not in ('sleep', 'park_timeout', 'recv_timeout'):
                    continue
                for d in [e.a[1]] + list(e.a[2]):
                    if d.op not in ('k', 'lin'):
                        continue
                    m, k = lin_of(d)
                    ctx.ob(bool(m) or k <= LONGEST, 'pause', what, 'the worker sleeps for %.3f s at a time while %s: nobody gets a snapshot or sees a command carried out before' % (k / 1e9, what), fn,
                           detail=show_ev(e))


def subterms(n):
    out = []
    walk(n, out.append)
    return out


def own_traits(db):
    out = set()
    for q, f in db.fns.items():
        for k in ('impl_trait', 'in_trait'):
            t = f.get(k)
            if t and not t.startswith(('core::', 'std::', 'alloc::')):
                out.add(tyname(t))
    return out


def locks(ctx, g):
    takes = {q for q, own in g.own.items() if any(k == 'lock' for k, _, _ in own)}
    cone = set()
    todo = list(takes)
    while todo:                             # a function that hands out its guard leaves the lock to its callers
        q = todo.pop()
        if q in cone:
            continue
        cone.add(q)
        if ctx.db.fns[q]['kind'] == 'Closure':
            todo.append(q.split('::{closure')[0])
        elif 'Guard' in str(ctx.db.fns[q]['body']['locals'][0]):
            todo += [x for x, es in g.edges.items() if q in es]
    mine = own_traits(ctx.db)
    order = {}
    for q in sorted(cone):
        fn = ctx.db.fns[q]
        if fn['kind'] == 'Closure':
            continue
        outs = ctx.run(fn)
        ctx.ob(True, 'lock', q, '')
        if outs is None:
            continue
        for o in outs:
            def bad(what, site, o=o):
                ctx.ob(False, 'lock', '%s|%s' % (q, site), '%s %s' % (q, what), fn, detail=o.show())

            def go(evs, held):
                for e in evs:
                    if e.op == 'loop':
                        for alt in e.a[1]:
                            h = list(held)
                            go(alt[1], h)
                            if h != held and len(h) > len(held):
                                bad('takes a lock in a loop and takes it again in the next round', 'loop')
                        continue
                    if e.op != 'ev':
                        continue
                    name, recv = e.a[0], e.a[1]
                    if name == 'lock':
                        if recv in held:
                            bad('takes a lock it already holds', 'twice')
                        for h in held:
                            if h is not recv:
                                order.setdefault((str(h), str(recv)), (q, fn))
                        held.append(recv)
                    elif name == 'drop':
                        ty = str(e.a[2][0]) if len(e.a) > 2 and e.a[2] else ''
                        if 'Guard' in ty and held:
                            hit = [h for h in held if h is recv]
                            held.remove(hit[0] if hit else held[-1])
                    elif held:
                        last = name.split('::')[-1]
                        if name.split('::')[0] in mine or last in ('call', 'call_mut', 'call_once'):
                            bad('runs %s, the code of others, while it holds a lock' % name, 'foreign|' + name)
                        elif last in ('recv', 'recv_timeout', 'sleep', 'park', 'join', 'wait', 'block_on') or last == 'send' and 'Sender' in name:
                            bad('waits (%s) while it holds a lock' % name, 'wait|' + name)
            go(o.ev, [])
    for (a, b), (q, fn) in sorted(order.items(), key=lambda x: x[0]):
        ctx.ob((b, a) not in order, 'lock', 'order|%s' % '|'.join(sorted((a, b))), 'two locks are taken in one order by %s and in the other by %s' % (q, order.get((b, a), ('',))[0]), fn)
    ctx.extra['functions under which a lock is taken'] = sorted(takes)
