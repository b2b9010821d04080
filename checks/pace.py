"""P35: when the worker of a driver rests between two rounds, and when it does not."""
from spec import *
import driving

RESTS = ('sleep', 'park_timeout', 'recv_timeout', 'sleep_ms')
LONGEST = 10 ** 9                           # ns
BUSY = 100


def rests(seg):
    """[(event, duration)] of the sleeps of a round"""
    r = []
    for e, _ in events(seg):
        if e.a[0].split('::')[-1] in RESTS:
            ds = [d for d in [e.a[1]] + list(e.a[2]) if d.op in ('k', 'lin', 'in', 'app', 'call')]
            r.append((e, ds[-1] if ds else None))
    return r


def completed(o, n):
    """the rounds of the path, without what is after the last look at whether to go on"""
    return driving.rounds(o)[:n]


def span(o, x, lo, hi):
    """interval of x according to the facts, within lo..hi"""
    d, c = lin_of(x)
    if not d:
        return c, c
    for a, s in o.facts.items():
        if a.op != 'int' or not s:
            continue
        e, k = lin_of(a.a[0])
        if e == d:
            lo, hi = max(lo, s[0][0] - k + c), min(hi, s[-1][1] - k + c)
        elif e == {t: -v for t, v in d.items()}:
            lo, hi = max(lo, k - s[-1][1] + c), min(hi, k - s[0][0] + c)
    return lo, hi


def p35(ctx):
    ctx.rule('idle', 'a round that finds nothing is followed by a rest')
    ctx.rule('paused', 'while paused each round is followed by a rest')
    ctx.rule('busy', 'a round that dropped something or processed more than %d messages is followed by the next one at once' % BUSY)
    ctx.rule('length', 'what is slept is what is left of a time no longer than a second, counted from the begin of the round')
    fn = driving.worker(ctx)
    N = 2
    nothing = driving.outcome(ctx)
    A = [driving.dmsg(ctx, 'AddProcessor', IN('p0')), driving.dmsg(ctx, 'AddProcessor', IN('p1'))]
    metrics = (NONE, some(IN('metrics')))
    seen = 0
    for m in metrics:
        w = '' if m is NONE else ' with metrics'
        # nothing to do, no time passes
        for what, msgs, k in (('idle', [], 0), ('idle', A, 2), ('paused', [driving.dmsg(ctx, 'Pause')], 0), ('paused', A + [driving.dmsg(ctx, 'Pause')], 2)):
            for o in driving.run_worker(ctx, msgs, N + k, nothing, metrics=m, desc=IN('desc')) or ():
                for i, seg in enumerate(completed(o, N + k)):
                    if i < k:
                        continue
                    seen += 1
                    rs = rests(seg)
                    good = any(d is not None and span(o, d, 0, INF)[0] > 0 for _, d in rs)
                    ctx.ob(good, what if what == 'paused' else 'idle', '%s|%s%s|%d' % (fn['p'], what, w, len(msgs)),
                           'the worker does not rest after a round %s: it keeps its processor busy with nothing' % ('while it is paused' if what == 'paused' else 'which found nothing'),
                           fn, detail=o.show())
        # something to do: how much is not known
        pr, dr = IN('processed'), IN('dropped')
        mark_unsigned(pr), mark_unsigned(dr)
        found = agg(nothing.a[0], None, [(n, pr if n == 'processed' else dr if n == 'dropped' else v) for n, v in nothing.a[2]])
        for o in driving.run_worker(ctx, A[:1], 1, found, metrics=m, desc=IN('desc')) or ():
            for seg in completed(o, 1):
                if not driving.evs(seg, driving.PROC):
                    continue
                seen += 1
                p, d = span(o, pr, 0, INF), span(o, dr, 0, INF)
                rs = rests(seg)
                if rs:
                    ctx.ob(p[0] <= BUSY and p[1] <= BUSY, 'busy', fn['p'] + '|processed' + w, 'the worker may rest although the round processed more than %d messages' % BUSY, fn, detail=o.show())
                    ctx.ob(d[1] == 0, 'busy', fn['p'] + '|dropped' + w, 'the worker may rest although messages were dropped in the round', fn, detail=o.show())
                else:
                    ctx.ob(p[0] > 0 or d[0] > 0, 'idle', fn['p'] + '|unrested' + w, 'the worker may go on without a rest although nothing was processed or dropped in the round', fn, detail=o.show())
        # time passes
        for what, msgs in (('idle', A[:1]), ('paused', [driving.dmsg(ctx, 'Pause')])):
            for o in driving.run_worker(ctx, msgs, 1, nothing, metrics=m, desc=IN('desc'), clock=True) or ():
                for seg in completed(o, 1):
                    for e, t in rests(seg):
                        if t is None:
                            continue
                        seen += 1
                        f, c = lin_of(t)
                        good = c <= LONGEST and (not f or sum(f.values()) == 0 and later(seg, f))
                        ctx.ob(good, 'length', '%s|%s%s' % (fn['p'], what, w), 'the worker sleeps for %s, which is not what is left of a limited time' % show(t)[:120], fn, detail=o.show())
    ctx.ob(seen > 0, 'idle', fn['p'], 'no round of the worker was found', fn)


def later(seg, f):
    """all readings of the clock that count negative were made after those that count positive"""
    when = {e.a[3]: i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == 'clock'}
    pos = [when.get(t, -1) for t, v in f.items() if v > 0]
    neg = [when.get(t, -1) for t, v in f.items() if v < 0]
    done = max([i for i, e in enumerate(seg) if e.op == 'ev' and e.a[0] == driving.PROC] or [-1])
    return bool(pos) and bool(neg) and max(pos) < min(neg) and done < min(neg)
