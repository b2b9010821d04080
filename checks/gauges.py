"""Gauges: P14 the value, P20 the statistics of tracked values."""
from instr import *
from snapshots import fstr, mentions_ty

CUR, UPDB = 'SecondsBuckets::current_mut', 'Bucket::update'
TRACK = set(BARRIER) | {CUR, UPDB}


def borrowed(o):
    """a path on which the buckets are in use by someone else: impossible, nobody else can reach them"""
    return any(a.op == 'bool' and s == {True} and mentions(a.a[0], lambda t: t.op == 'app' and t.a[0] == 'already-borrowed') for a, s in o.facts.items())


def path_of(obj, *names):
    return F(obj, *names)


# -------------------------------------------------------------------- P14
def p14(ctx):
    ctx.rule('value', 'the value becomes exactly what the update says')
    ctx.rule('kept', 'the value stays when the update carries nothing that can be shown')
    ctx.rule('track', 'each new value is recorded once in the bucket of the current second, exactly when tracking')
    ctx.rule('else', 'an update changes nothing else')
    ctx.rule('updated', 'an observation with a value reports 1, others 0')
    ctx.rule('shown', 'the value is shown under the name, or as current when grouped; a gauge without a value shows none')
    ty = 'Gauge'
    val = F(SELF, 'value')
    vfield = 'value'
    # the value is what is shown
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    nm = F(SELF, 'name')
    shown_terms = set()
    group = [f for f, t in ctx.fields(ty) if prim(t) == 'bool']
    opts = [f for f, t in ctx.fields(ty) if is_opt_int(t)]
    if len(opts) != 1 or len(group) != 1:
        ctx.undecided.append('Gauge: fields of type Option<i64> %s, bool %s' % (opts, group))
        return
    vfield, gfield = opts[0], group[0]
    val, grp = F(SELF, vfield), F(SELF, gfield)
    _, ls = shown(ctx, ty, SELF)
    for o, seq in ls:
        if borrowed(o):
            continue
        g, has = truth(o, grp), is_some(o, val)
        site = fn['p']
        if g is None:
            ctx.ob(False, 'shown', site + '|group', 'whether values are grouped makes no difference', fn, detail=fmt_facts(o))
            continue
        if g:
            lv = item(seq, nm)
            s = nested(lv) if lv is not None else None
            if s is None:
                ctx.ob(False, 'shown', site + '|level', 'grouped values are not shown in a level named like the gauge', fn)
                continue
            seq = base_items(s)[1]
            v = item(seq, 'current')
        else:
            v = item(seq, nm)
        if has is None:
            ctx.ob(False, 'shown', site + '|has', 'whether there is a value makes no difference', fn, detail=fmt_facts(o))
        elif has:
            ctx.ob(v is not None and v.a[1] == 'Int' and uncast(inner(v)) is F(val, 'Some.0'), 'shown', site + '|value', 'shown as value: %s' % (show(v) if v is not None else None), fn)
        else:
            stray = [x for x in seq if x[0] == 'item']
            ctx.ob(not stray, 'shown', site + '|none', 'a gauge without a value shows %s' % [show(x[1]) for x in stray], fn)
    new = new_object(ctx, ty)
    if new is not None:
        ctx.ob(F(new.ret, vfield).a[1] == 'None', 'shown', 'new', 'a new gauge has the value %s' % show(F(new.ret, vfield)), fn)
    taken(ctx, ty, vfield)
    g = ctx.inh(ty, 'get', opt=True)
    for o in (ctx.run(g) or []) if g is not None else []:
        h = is_some(o, val)
        ctx.ob(o.ret is val or h is False and o.ret.op == 'agg' and o.ret.a[1] == 'None' or h and o.ret.op == 'agg' and inner(o.ret) is F(val, 'Some.0'), 'shown', g['p'],
               'get() returns %s' % show(o.ret), g)


def taken(ctx, ty, vfield):
    """what each update, and each value set, does to a gauge"""
    tr = [f for f, t in ctx.fields(ty) if mentions_ty(t, 'SecondsBuckets')]
    if len(tr) != 1:
        ctx.undecided.append('Gauge: tracking fields %s' % tr)
        return
    tr = tr[0]
    unit = [f for f, t in ctx.fields(ty) if mentions_ty(t, 'TimeUnit')]
    for kind, u, x in updates(ctx):
        fn, outs = run_update(ctx, ty, u, barrier=TRACK)
        for o in outs or []:
            judge(ctx, fn, o, kind, x, vfield, tr, F(SELF, unit[0]) if unit else None, fn['p'])
    for kind, v, x in values(ctx):
        fn = ctx.inh(ty, 'set', opt=True)
        for o in (ctx.run(fn, args=[SELF, v], barrier=TRACK) or []) if fn is not None else []:
            judge(ctx, fn, o, kind, x, vfield, tr, F(SELF, unit[0]) if unit else None, fn['p'], ret=False)


class Only:
    """a context in which only the obligations of some rules count"""

    def __init__(self, ctx, *rules):
        self.__dict__.update(ctx_=ctx, rules_=rules)

    def __getattr__(self, n):
        return getattr(self.ctx_, n)

    def __setattr__(self, n, v):
        setattr(self.ctx_, n, v)

    def ob(self, cond, rule, *a, **k):
        if rule in self.rules_:
            return self.ctx_.ob(cond, rule, *a, **k)


def is_opt_int(t):
    return t.get('k') == 'adt' and tyname(t['p']) == 'Option' and prim(t['a'][0]) == 'i64'


def content(o, opt):
    """what an Option field holds: term, None or '?'"""
    if opt.op == 'agg':
        return opt.a[2][0][1] if opt.a[1] == 'Some' else None
    h = is_some(o, opt)
    return '?' if h is None else F(opt, 'Some.0') if h else None


def judge(ctx, fn, o, kind, x, vfield, tr, unit, site, ret=True):
    if borrowed(o):
        return
    site = '%s|%s' % (site, kind)
    before, after = F(SELF, vfield), F(o.final(SELF), vfield)
    cur = is_some(o, before)
    same = after is before
    if kind == 'ChangedBy':
        if cur is None and not same:
            ctx.ob(False, 'value', site + '|current', 'whether there is a value makes no difference to a change', fn, detail=o.show())
            return
        want = difference(F(before, 'Some.0'), mk_lin({x: -1}, 0)) if cur else x
    else:
        want = converted(ctx, 'Gauge', kind, x, o, unit)
    if isinstance(want, str):
        ctx.ob(False, 'value', site + '|range', 'a gauge: whether a value (%s) can be shown makes no difference' % kind, fn, detail=o.show())
        return
    got = before if same else content(o, after)
    if want is None:
        kept = same or (cur and got is F(before, 'Some.0')) or (cur is False and got is None)
        ctx.ob(kept, 'kept', site, 'an update (%s) without a value that can be shown changes the value to %s' % (kind, show(after)), fn, detail=o.show())
    else:
        good = not same and isinstance(got, N) and (same_cast(got, want)) or same and cur and known(o.facts, want) is F(before, 'Some.0')
        ctx.ob(good, 'value', site, 'an update (%s) sets a gauge to %s instead of %s' % (kind, show(after), show(want)), fn, detail=o.show())
    if ret:
        r = kint(0) if kind in ('one', 'many') else kint(1)
        ctx.ob(o.ret is r, 'updated', site + '|ret', 'a gauge reports %s for an update (%s)' % (show(o.ret), kind), fn)
    ch = set(changed(ctx, 'Gauge', o)) - {vfield, tr}
    ctx.ob(not ch, 'else', site + '|else', 'an update (%s) of a gauge also changes %s' % (kind, sorted(ch)), fn)
    # tracking
    rec_ = [(e, p) for e, p in events(o.ev) if e.a[0] == UPDB]
    on = is_some(o, F(SELF, tr))
    if kind in ('one', 'many'):
        ctx.ob(not rec_, 'track', site + '|nothing', 'an update (%s) without a value is recorded' % kind, fn)
        return
    if on is None:
        if want is None:
            ctx.ob(not rec_, 'track', site + '|off', 'a value is recorded whether or not values are tracked', fn)
            return
        ctx.ob(False, 'track', site + '|any', 'whether values are tracked makes no difference to an update (%s)' % kind, fn, detail=o.show())
        return
    if not on:
        ctx.ob(not rec_, 'track', site + '|off', 'a value is recorded although values are not tracked', fn)
        return
    b = F(SELF, tr, 'Some.0')
    odd = not rec_ and F(o.final(SELF), tr) is not F(SELF, tr)
    if odd:
        ctx.undecided.append('%s: how a tracked value is recorded' % site)
        return
    if want is None and not rec_:
        ctx.ob(True, 'track', site + '|on', '', fn)
        return
    val = want if want is not None else F(before, 'Some.0')
    good = len(rec_) == 1 and not rec_[0][1] and same_cast(rec_[0][0].a[2][0], val)
    ctx.ob(good, 'track', site + '|on', 'the value of an update (%s) is recorded as %s' % (kind, [show(e.a[2][0]) for e, p in rec_]), fn, detail=o.show())
    for e, p in rec_:
        r = e.a[1]
        ctx.ob(r.op == 'call' and r.a[0] == CUR and mentions(r, lambda t: t is b), 'track', site + '|bucket', 'a value is recorded in %s instead of the bucket of the current second' % show(r)[:200], fn)


# -------------------------------------------------------------------- P20
STATS = {'peak': ('max', 'max'), 'peak_min': ('min', 'max'), 'peak_avg': ('avg', 'max'), 'bottom': ('min', 'min'), 'bottom_max': ('max', 'min'),
         'bottom_avg': ('avg', 'min'), 'avg': ('avg', 'sum')}
I64 = (-2**63, 2**63 - 1)


def p20(ctx):
    ctx.rule('bucket', 'a bucket keeps number, sum, minimum and maximum of the values recorded in it')
    ctx.rule('ring', 'the ring moves on by exactly the whole seconds gone by and empties exactly the buckets it moves onto')
    ctx.rule('visit', 'every bucket of the window is visited exactly once')
    ctx.rule('window', 'the window has as many buckets as seconds were asked for, all empty')
    ctx.rule('stats', 'each statistic is computed from the buckets that have values, under its own name')
    ctx.rule('empty', 'without values in the window all statistics are the current value')
    ctx.rule('track', 'each new value is recorded once in the bucket of the current second, exactly when tracking')
    values_ = [f for f, t in ctx.fields('Gauge') if is_opt_int(t)]
    if len(values_) == 1:
        taken(Only(ctx, 'track'), 'Gauge', values_[0])
    roles = bucket(ctx)
    ring(ctx)
    visit(ctx)
    window(ctx)
    if roles is not None:
        stats(ctx, roles)


def leaves(ctx, ty):
    """paths of the integer parts of a struct; None when it has other parts"""
    r = []
    for f, t in ctx.fields(ty):
        if t.get('k') == 'tuple':
            for i, u in enumerate(t['a']):
                if prim(u) not in ('i64', 'u64', 'usize', 'i128', 'u32', 'u128'):
                    return None
                r.append((f, str(i)))
        elif prim(t) in ('i64', 'u64', 'usize', 'i128', 'u32', 'u128'):
            r.append((f,))
        else:
            return None
    return r


def relation(facts, a, b):
    """range of a - b"""
    if isint(a) and isint(b):
        d = a.a[1] - b.a[1]
        return d, d
    want, c0 = lin_of(difference(a, b))

    def f(d):
        if set(d) == set(want):
            if all(d[t] == want[t] for t in d):
                return 1
            if all(d[t] == -want[t] for t in d):
                return -1
        return None
    r = lin_fact(facts, f)
    return None if r is None else (r[0] + c0, r[1] + c0)


def bucket(ctx):
    """{role: path} of the parts of a bucket"""
    ps = leaves(ctx, 'Bucket')
    fn = ctx.inh('Bucket', 'update')
    if ps is None:
        ctx.undecided.append('Bucket: parts other than numbers')
        return None
    outs = ctx.run(fn) or []
    v = arg(1)
    df = [f for f in ctx.db.fns.values() if False]
    init = default_of(ctx, 'Bucket')
    roles, why = {}, {}
    new = {p: [(o, F(SELF, *p), F(o.final(SELF), *p)) for o in outs] for p in ps}
    for p in ps:
        if all(difference(b, a) is kint(1) for o, a, b in new[p]):
            roles['count'] = p
        elif all(difference(b, a) is v for o, a, b in new[p]):
            roles['sum'] = p
    cnt = F(SELF, *roles['count']) if 'count' in roles else None
    for p in ps:
        if p in roles.values():
            continue
        for role, sign in (('max', 1), ('min', -1)):
            ok = True
            for o, a, b in new[p]:
                c = lin_fact(o.facts, lambda d: d[cnt] if set(d) == {cnt} else None) if cnt is not None else None
                first = c == (0, 0)
                r = relation(o.facts, v, a)
                lo, hi = r if r else (-INF, INF)
                if first:
                    ok &= b is v or (sign > 0 and lo >= 0 or sign < 0 and hi <= 0) and same_int(a, b) and init is not None and F(init, *p) is kint(I64[0] if sign > 0 else I64[1])
                    continue
                if c is None and not (init is not None and F(init, *p) is kint(I64[0] if sign > 0 else I64[1])):
                    ok = False
                if b is v:
                    ok &= lo >= 0 if sign > 0 else hi <= 0
                elif same_int(b, a):
                    ok &= hi <= 0 if sign > 0 else lo >= 0
                else:
                    ok = False
            if ok and role not in roles:
                roles[role] = p
                break
    for role in ('count', 'sum', 'min', 'max'):
        ctx.ob(role in roles, 'bucket', '%s|%s' % (fn['p'], role), 'no part of a bucket is the %s of its values after an update' % {
            'count': 'number', 'sum': 'sum', 'min': 'minimum', 'max': 'maximum'}[role], fn,
            detail='\n'.join(o.show() for o in outs)[:2000])
    if init is not None:
        for role in ('count', 'sum'):
            if role in roles:
                ctx.ob(F(init, *roles[role]) is kint(0), 'bucket', 'Bucket|new|' + role, 'a new bucket has %s %s' % (role, show(F(init, *roles[role]))), fn)
    return roles if len(roles) == 4 else None


def default_of(ctx, ty):
    fn = ctx.trait_fn(ty, 'Default', 'default', opt=True)
    outs = ctx.run(fn) if fn is not None else None
    return outs[0].ret if outs and len(outs) == 1 else None


# ---- the ring
def rolled(t, idx, ln):
    """k when t is (idx + k) mod len"""
    if t is idx:
        return kint(0)
    if t.op == 'app' and t.a[0] == 'rem' and norm_len(t.a[2]) is ln:
        return difference(t.a[1], idx)
    if t.op == 'rec' and t.a[1] is idx and t.a[0] is not None:
        n = span_of(t.a[0])
        if n is not None and all(rolled_me(x, facts, ln) is kint(1) for facts, x in t.a[2]):
            return n
    return None


def norm_len(t):
    return norm(t)


def ring(ctx):
    ty = 'SecondsBuckets'
    fn = ctx.inh(ty, 'tick')
    fl = dict(ctx.fields(ty))
    vec = [f for f, t in fl.items() if t.get('k') == 'adt' and tyname(t['p']) == 'Vec']
    idx = [f for f, t in fl.items() if prim(t) == 'usize']
    tm = [f for f, t in fl.items() if t.get('k') == 'adt' and tyname(t['p']) == 'Instant']
    if len(vec) != 1 or len(idx) != 1 or len(tm) != 1:
        ctx.undecided.append('SecondsBuckets: fields %s' % sorted(fl))
        return
    vec, idx, tm = vec[0], idx[0], tm[0]
    B, I, T0 = F(SELF, vec), F(SELF, idx), F(SELF, tm)
    LEN = app('len', B)
    for o in ctx.run(fn) or []:
        site = fn['p']
        clock = [t for t in now_terms(o)]
        if len(set(clock)) != 1:
            ctx.ob(False, 'ring', site + '|clock', 'moving on reads the clock %d times' % len(set(clock)), fn, detail=o.show())
            continue
        now = clock[0]
        gone = app('div', mk_lin({now: 1, T0: -1}, 0), kint(SECOND))
        fin = o.final(SELF)
        step, moved = F(fin, tm), F(fin, idx)
        d = exactly(o, gone)
        # time
        dt = difference(step, T0)
        want = kint(d * SECOND) if d is not None else mk_lin({gone: SECOND}, 0)
        same = dt is want or d is not None and known_gone(dt, gone, d) is want
        ctx.ob(same, 'ring', site + '|time', 'the time of the current bucket moves on by %s' % show(dt), fn, detail=fmt_facts(o))
        # place and buckets
        got = advance(ctx, o, fin, vec, idx, B, I, LEN)
        if got is None:
            ctx.undecided.append('%s: how the ring moves: %s, %s' % (site, show(moved)[:120], show(F(fin, vec))[:200]))
            continue
        kind, n = got
        r = relation(o.facts, gone, LEN)
        if kind == 'all':
            enough = r is not None and r[0] >= 0
            bad_place = n is False
            ctx.ob(enough, 'ring', site + '|all', 'all buckets are emptied although less time than the window may have gone by', fn, detail=fmt_facts(o))
            ctx.ob(not bad_place, 'ring', site + '|place', 'after emptying all buckets the current one is %s' % show(moved), fn)
        elif kind == 'move':
            ok = n is gone or d is not None and isint(n) and n.a[1] == d or d is not None and known_gone(n, gone, d) is kint(d)
            ctx.ob(ok, 'ring', site + '|move', 'the ring moves on by %s when %s seconds have gone by' % (show(n), show(gone) if d is None else d), fn, detail=fmt_facts(o))
        else:
            ctx.ob(False, 'ring', site + '|' + kind, 'the ring moves on %s' % n, fn, detail=o.show()[:1500])
    # everything that hands out buckets moves on first
    for m in ('current_mut', 'iter'):
        f = ctx.inh(ty, m, opt=True)
        if f is None:
            continue
        outs = ctx.run(f, barrier=set(BARRIER) | {'SecondsBuckets::tick'}) or []
        for o in outs:
            ticks_ = [e for e, p in events(o.ev) if e.a[0] == 'SecondsBuckets::tick' and not p]
            ctx.ob(len(ticks_) >= 1, 'ring', f['p'] + '|first', '%s hands out buckets without moving on' % m, f)
            if m == 'current_mut':
                r = norm(o.ret)
                ctx.ob(mentions(o.ret, lambda t: t.op == 'f' and t.a[1] == idx) and mentions(o.ret, lambda t: t.op == 'f' and t.a[1] == vec) and r.op in ('idx', 'elem', 'f'),
                       'ring', f['p'] + '|current', 'the current bucket is %s' % show(o.ret)[:200], f)


def now_terms(o):
    for e, p in events(o.ev):
        if e.a[0].endswith('::now') or e.a[0] == 'now':
            yield e.a[3]
    seen = set()

    def f(x):
        if is_now(x):
            seen.add(x)
    for a in o.facts:
        for y in a.a:
            if isinstance(y, N):
                walk(y, f)
    for x in seen:
        yield x


def exactly(o, t):
    s = o.facts.get(mk('int', t))
    return s[0][0] if s is not None and len(s) == 1 and s[0][0] == s[0][1] else None


def known_gone(t, gone, d):
    return rebuild(t, lambda x: kint(d) if x is gone else None)


def is_fresh(x):
    return x.op in ('call', 'app') and str(x.a[0]).startswith('default:') or x.op == 'app' and str(x.a[0]).startswith('default') or show(x).startswith('default:')


def advance(ctx, o, fin, vec, idx, B, I, LEN):
    """('move', n) when the ring moved on by n buckets emptying each; ('all', place ok) when all were emptied; (other, text) when it did something wrong"""
    b, i = F(fin, vec), F(fin, idx)
    lps = [e for e in o.ev if e.op == 'loop']
    fresh_all = [e for e in lps if norm(e.a[0]) is B] if lps else []
    whole = False
    if fresh_all:
        el = o.final(mk('elem', B))
        whole = is_fresh(el)
        if not whole:
            return 'all', False if False else None
    if whole:
        ok = isint(i) and i.a[1] == 0 or i is I or rolled(i, I, LEN) is not None
        return 'all', ok
    return advance_to(ctx, o, b, i, B, I, LEN)


def advance_to(ctx, o, b, i, B, I, LEN):
    if b is B and i is I:
        return 'move', kint(0)
    if b.op == 'upd' and b.a[0] is B:
        ks = [k for k, _ in b.a[1]]
        k = rolled(i, I, LEN)
        if k is None:
            k = wrapped(o, i, I, LEN)
        place = ks[0][1] if len(ks) == 1 and isinstance(ks[0], tuple) else None
        if k is None or place is None:
            return None
        if place is not i:
            return 'empties', 'but empties the bucket at %s' % show(place)
        if not is_fresh(b.a[1][0][1]):
            return 'empties', 'but the bucket it moves onto becomes %s' % show(b.a[1][0][1])
        if k is not kint(1) and exactly(o, k) != 1:
            return 'skips', 'by %s but empties one bucket' % show(k)
        return 'move', k
    # a loop and then one more step
    if i.op == 'app' and i.a[0] == 'rem' and norm_len(i.a[2]) is LEN:
        inner = [x for x, c in lin_of(i.a[1])[0].items() if x.op == 'rec' and c == 1 and x.a[1] is I]
        if len(inner) == 1:
            j = difference(i.a[1], inner[0])
            b0 = b.a[0] if b.op == 'upd' else b
            got = advance_to(ctx, o, b0, inner[0], B, I, LEN)
            if got is None or got[0] != 'move' or j is None:
                return got
            if b is b0:
                return got if j is kint(0) else ('skips', 'by %s after a loop without emptying the bucket there' % show(j))
            ks = [k for k, _ in b.a[1]]
            if len(ks) == 1 and isinstance(ks[0], tuple) and j is kint(1):
                if not is_fresh(b.a[1][0][1]):
                    return 'empties', 'but the bucket it moves onto becomes %s' % show(b.a[1][0][1])
                if ks[0][1] is i:
                    return 'move', add(got[1], kint(1))
    if b.op == 'rec' and b.a[1] is B and b.a[0] is not None and i.op != 'rec':
        # buckets at offsets of a range are emptied, the place moves by its end
        k = rolled(i, I, LEN)
        if k is None or len(b.a[2]) != 1 or b.a[0].op != 'app' or b.a[0].a[0] not in ('range', 'rangei'):
            return None
        lo, hi = b.a[0].a[1], b.a[0].a[2]
        for facts, x in b.a[2]:
            if x.op != 'upd' or x.a[0] is not ME or len(x.a[1]) != 1:
                return None
            place, val = x.a[1][0][0], x.a[1][0][1]
            place = place[1] if isinstance(place, tuple) else place
            q = norm(rebuild(place, lambda y: B if y is ME else None))
            q = rolled(q, I, LEN)
            if q is None:
                return None
            c = difference(q, mk('elem', b.a[0]))
            if not isint(c):
                return None
            if not is_fresh(val):
                return 'empties', 'but a bucket it moves onto becomes %s' % show(val)
            first = difference(lo, mk_lin({c: -1}, 0)) if not isint(lo) else kint(lo.a[1] + c.a[1])
            d, e = lin_of(hi)
            last = mk_lin(d, e + c.a[1] - (1 if b.a[0].a[0] == 'range' else 0))
            if first is not kint(1) or difference(last, k) is not kint(0):
                return 'empties', 'but empties the buckets from %s to %s further when moving by %s' % (show(first), show(last), show(k))
        return 'move', k
    if b is B:
        k = rolled(i, I, LEN)
        if k is not None:
            return 'keeps', 'by %s without emptying a bucket' % show(k)
        if i.op == 'rec':
            return 'keeps', 'without emptying a bucket'
        return None
    if b.op == 'rec' and i.op == 'rec' and b.a[0] is i.a[0] and b.a[1] is B and i.a[1] is I:
        n = span_of(b.a[0])
        if n is None:
            return None
        for facts, x in i.a[2]:
            k = rolled_me(x, facts, LEN)
            if k is None:
                return None
            if k is not kint(1):
                return 'skips', 'by %s buckets per second' % show(k)
        for facts, x in b.a[2]:
            if x.op != 'upd' or x.a[0] is not ME or len(x.a[1]) != 1:
                return ('keeps', 'without emptying every bucket') if x is ME else None
            place, val = x.a[1][0][0], x.a[1][0][1]
            place = place[1] if isinstance(place, tuple) else place
            if not is_fresh(val):
                return 'empties', 'but a bucket it moves onto becomes %s' % show(val)
            q = norm(rebuild(place, lambda y: B if y is ME else None))
            k = rolled(q, I, LEN)
            if k is None:
                k = wrapped_facts(facts, q, I, LEN)
            if k is None:
                return None
            if k is not kint(1):
                return 'empties', 'but empties the bucket %s away from the one before' % show(k)
        return 'move', n
    return None


def wrapped(o, i, I, LEN):
    return wrapped_facts(o.facts, i, I, LEN)


def wrapped_facts(facts, i, I, LEN):
    """1 for `if idx + 1 == len { 0 } else { idx + 1 }`"""
    facts = {rebuild(a, lambda x: norm(x) if x.op in ('lvo', 'rec') else None): s for a, s in dict(facts).items()}
    return wraps(facts, i, I, LEN)


def wraps(facts, i, I, LEN):
    r = end_of_ring(facts, I, LEN)
    if isint(i) and i.a[1] == 0 and r is True or difference(i, I) is kint(1) and r is False:
        return kint(1)
    return None


def end_of_ring(facts, I, LEN):
    """is I the last place; places are always below the length"""
    for a, s in facts.items():
        if a.op != 'int':
            continue
        d, c = lin_of(a.a[0])
        if set(d) == {I, LEN} and d[I] == -d[LEN] and abs(d[I]) == 1:
            k = set()
            for l, h in s:
                l, h = l - c, h - c
                if d[I] < 0:
                    l, h = -h, -l
                if l <= -1:
                    k.add(h == -1 and l == -1)
                    if h >= -1 and l < -1:
                        k.add(True)
            if len(k) == 1:
                return k.pop()
    return None


def rolled_me(x, facts, LEN):
    if x.op == 'app' and x.a[0] == 'rem' and norm_len(x.a[2]) is LEN:
        return difference(x.a[1], ME)
    if x is ME:
        return kint(0)
    facts = {rebuild(a, lambda y: norm(y) if y.op in ('lvo', 'rec') else None): s for a, s in dict(facts).items()}
    return wraps(facts, x, ME, LEN)


def span_of(coll):
    """number of iterations over a range"""
    if coll is not None and coll.op == 'app' and coll.a[0] in ('range', 'rangei'):
        n = difference(coll.a[2], coll.a[1])
        return n if coll.a[0] == 'range' else difference(n, kint(-1))
    return None


# ---- the iterator
def visit(ctx):
    ty = 'SecondsBuckets'
    it = ctx.inh(ty, 'iter')
    outs = ctx.run(it, barrier=set(BARRIER) | {'SecondsBuckets::tick'}) or []
    nx = ctx.trait_fn('BucketIterator', 'Iterator', 'next', opt=True)
    if nx is None or not all(o.ret.op == 'agg' and tyname(o.ret.a[0]) == 'BucketIterator' for o in outs):
        ctx.undecided.append('SecondsBuckets::iter: how the buckets are visited')
        return
    fl = ctx.fields('BucketIterator')
    nums = [f for f, t in fl if prim(t) == 'usize']
    vec = [f for f, t in fl if f not in nums]
    runs = ctx.run(nx) or []
    # the counter decides whether there is another one; the other number is the place
    cf = None
    for f in nums:
        if all(lin_fact(o.facts, lambda d: d[F(SELF, f)] if set(d) == {F(SELF, f)} else None) is not None for o in runs) and any(
                o.ret.op == 'agg' and o.ret.a[1] == 'None' for o in runs) and all(
                (lin_fact(o.facts, lambda d: d[F(SELF, f)] if set(d) == {F(SELF, f)} else None)[0] >= 1) == (o.ret.a[1] == 'Some') for o in runs):
            cf = f
    if cf is None or len(nums) != 2 or len(vec) != 1:
        if len(nums) != 2 or len(vec) != 1:
            ctx.undecided.append('BucketIterator: fields %s' % [f for f, _ in fl])
        else:
            ctx.ob(False, 'visit', nx['p'] + '|end', 'visiting the buckets does not end after a given number', nx, detail='\n'.join(o.show() for o in runs)[:1500])
        return
    pf = [f for f in nums if f != cf][0]
    V, P, C = F(SELF, vec[0]), F(SELF, pf), F(SELF, cf)
    LEN = app('len', V)
    dirs = set()
    for o in runs:
        fin = o.final(SELF)
        if o.ret.a[1] == 'None':
            continue
        got = o.ret.a[2][0][1]
        ctx.ob(is_elem(got, V, P), 'visit', nx['p'] + '|item', 'visiting yields %s' % show(got)[:150], nx)
        ctx.ob(difference(F(fin, cf), C) is kint(-1), 'visit', nx['p'] + '|count', 'visiting counts by %s' % show(difference(F(fin, cf), C)), nx)
        p2 = F(fin, pf)
        z = lin_fact(o.facts, lambda d: d[P] if set(d) == {P} else None)
        r = relation(o.facts, mk_lin({P: 1}, 1), LEN)
        m = None
        if difference(p2, P) is kint(-1) and z is not None and z[0] >= 1:
            m = -1
        elif difference(p2, LEN) is kint(-1) and z == (0, 0):
            m = -1
        elif difference(p2, P) is kint(1) and r is not None and r[1] <= -1 or isint(p2) and p2.a[1] == 0 and r is not None and r[0] >= 0:
            m = 1
        elif p2.op == 'app' and p2.a[0] == 'rem' and norm_len(p2.a[2]) is LEN:
            q = difference(p2.a[1], P)
            m = 1 if q is kint(1) else -1 if difference(q, LEN) is kint(-1) else None
        ctx.ob(m is not None, 'visit', nx['p'] + '|next', 'after the bucket at %s comes %s' % (show(P), show(p2)[:100]), nx, detail=fmt_facts(o))
        dirs.add(m)
    ctx.ob(len(dirs - {None}) <= 1, 'visit', nx['p'] + '|direction', 'visiting goes in both directions', nx)
    for o in outs:
        c, p = F(o.ret, cf), F(o.ret, pf)
        ctx.ob(c.op == 'app' and c.a[0] == 'len' and mentions(c, lambda t: t.op == 'f' and t.a[0] is not V), 'visit', it['p'] + '|all', 'visiting covers %s buckets' % show(c)[:150], it)
        okp = not isint(p) or p.a[1] == 0
        ctx.ob(okp, 'visit', it['p'] + '|start', 'visiting starts at %s' % show(p)[:150], it)


def is_elem(got, V, P):
    s = mentions(got, lambda t: t is V) and mentions(got, lambda t: t is P)
    return got.op in ('idx', 'elem', 'f') and s


def window(ctx):
    fn = ctx.inh('Gauge', 'set_tracking')
    n = arg(1)
    mark_unsigned(n)
    tr = [f for f, t in ctx.fields('Gauge') if mentions_ty(t, 'SecondsBuckets')]
    for o in ctx.run(fn) or []:
        x = F(o.final(SELF), tr[0])
        z = lin_fact(o.facts, lambda d: d[n] if set(d) == {n} else None)
        if x is F(SELF, tr[0]):
            ctx.ob(z == (0, 0), 'window', fn['p'] + '|none', 'tracking is not switched on for every number of seconds but zero', fn, detail=fmt_facts(o))
            continue
        colls = []

        def f(y):
            if y.op == 'rec' and y.a[0] is not None and y.a[1].op == 'list':
                colls.append(y)
        walk(x, f)
        sizes = set()
        for y in set(colls):
            k = span_of(y.a[0])
            one = all(v.op == 'list' and v.a[0] is ME and len(v.a[1]) == 1 for _, v in y.a[2])
            base = len(y.a[1].a[1]) if y.a[1].a[0] is None else None
            sizes.add((difference(k, kint(-base)) if base else k) if k is not None and one and base is not None else None)
        sb = field_of_type(x, 'SecondsBuckets')
        vf = [f for f, t in ctx.fields('SecondsBuckets') if t.get('k') == 'adt' and tyname(t['p']) == 'Vec']
        lst = F(sb, vf[0]) if sb is not None and len(vf) == 1 else None
        if not colls and lst is not None and lst.op == 'list' and lst.a[0] is None:
            sizes = {kint(len(lst.a[1]))}
            ctx.ob(sizes == {known(o.facts, n)}, 'window', fn['p'] + '|size', 'tracking for %s seconds makes %s buckets' % (show(known(o.facts, n)), len(lst.a[1])), fn)
            continue
        if not colls or None in sizes:
            ctx.undecided.append('%s: how the buckets are made: %s' % (fn['p'], show(x)[:200]))
            continue
        ctx.ob(sizes == {n}, 'window', fn['p'] + '|size', 'tracking for n seconds makes %s buckets' % [show(s) for s in sizes], fn)


def field_of_type(x, ty):
    out = []

    def f(y):
        if y.op == 'agg' and tyname(y.a[0]) == ty:
            out.append(y)
    walk(x, f)
    return out[0] if out else None


# ---- the statistics
def each_of(coll):
    return mk('elem', coll)


def fold(rec_, roles, init_zero):
    """(kind, role) of an aggregation over the buckets: ('max'|'min'|'sum', role), ('number', None); a string says what is wrong; None when not recognised"""
    coll = rec_.a[0]
    if coll is None:
        return None
    kinds = set()
    for facts, x in rec_.a[2]:
        facts = dict(facts)
        el = the_element(rec_, roles)
        if el is None:
            return None
        leaf = {r: F(el, *p) for r, p in roles.items()}
        cnt = leaf['count']
        c = lin_fact(facts, lambda d: d[cnt] if set(d) == {cnt} else None)
        if c is not None and c[1] <= 0:
            if x is not ME and not any(difference(x, ME) is leaf[r] for r in ('sum', 'count')):
                return 'counts buckets without values'
            continue
        filled = c is not None and c[0] >= 1
        if not filled and c is not None:
            return 'leaves out buckets with values'
        if x is ME:
            poss = set()
            for r in ('min', 'max'):
                q = relation(facts, ME, leaf[r])
                if q is not None:
                    if q[0] >= 0:
                        poss.add(('max', r))
                    if q[1] <= 0:
                        poss.add(('min', r))
            if not poss:
                return 'leaves out buckets with values'
            kinds.add(frozenset(poss))
            continue
        hit = False
        for r in ('min', 'max'):
            if same_int(x, leaf[r]):
                q = relation(facts, leaf[r], ME)
                if q is None:
                    return 'takes the %s of the last bucket only' % r
                s = set()
                if q[0] >= 0:
                    s.add(('max', r))
                if q[1] <= 0:
                    s.add(('min', r))
                kinds.add(frozenset(s))
                hit = True
        if hit:
            if not filled:
                return 'counts buckets without values'
            continue
        d = difference(x, ME)
        for r in roles:
            if same_cast(d, leaf[r]):
                kinds.add(frozenset({('sum', r)}))
                hit = True
                if not filled and not init_zero.get(r):
                    return 'counts buckets without values'
        if d is kint(1):
            kinds.add(frozenset({('number', None)}))
            hit = True
            if not filled:
                return 'counts buckets without values'
        if not hit:
            if mentions(d, lambda t: t.op in ('lvo', 'lv')) and not mentions(d, lambda t: t.op == 'app' and str(t.a[0]).startswith('f')):
                return 'adds up %s' % show(norm(d))[:100]
            return None
    if not kinds:
        return None
    k = frozenset.intersection(*kinds)
    if len(k) == 1:
        k = next(iter(k))
        want = {'max': I64[0], 'min': I64[1], 'sum': 0, 'number': 0}[k[0]]
        if not isint(rec_.a[1]) or rec_.a[1].a[1] != want:
            return 'starts from %s' % show(rec_.a[1])
        return k
    if not k:
        return 'is neither a maximum nor a minimum'
    return None


def the_element(rec_, roles):
    found = set()
    first = {p[0] for p in roles.values()}

    def f(x):
        if x.op == 'f' and x.a[1] in first and x.a[0].op in ('elem', 'each', 'item', 'call', 'f'):
            found.add(x.a[0])
    for facts, v in rec_.a[2]:
        walk(v, f)
        for a, s in facts:
            for y in a.a:
                if isinstance(y, N):
                    walk(y, f)
    found = {x for x in found if mentions(x, lambda t: t is rec_.a[0])}
    return next(iter(found)) if len(found) == 1 else None


def recs_in(t):
    out = []

    def f(x):
        if x.op == 'rec':
            out.append(x)
    walk(t, f)
    tops = set(out)
    return tops


def stats(ctx, roles):
    ty = 'Gauge'
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    init = default_of(ctx, 'Bucket')
    zero = {r: init is not None and F(init, *p) is kint(0) for r, p in roles.items()}
    group = [f for f, t in ctx.fields(ty) if prim(t) == 'bool'][0]
    vf = [f for f, t in ctx.fields(ty) if is_opt_int(t)][0]
    tr = [f for f, t in ctx.fields(ty) if mentions_ty(t, 'SecondsBuckets')][0]
    val, grp = F(SELF, vf), F(SELF, group)
    nm = F(SELF, 'name')
    for o in ctx.run(fn, args=[SELF, arg(1), FALSE], barrier=set(BARRIER) | {'SecondsBuckets::iter'}) or []:
        if borrowed(o):
            continue
        try:
            base, seq = base_items(o.final(arg(1)))
            g = truth(o, grp)
            if g:
                s = nested(item(seq, nm)) if item(seq, nm) is not None else None
                seq = base_items(s)[1] if s is not None else []
        except Odd as e:
            ctx.undecided.append('%s: %s' % (fn['p'], e))
            continue
        got = {}
        for x in seq:
            if x[0] == 'item':
                ps = [flat(p) for p in fstr(x[1])]
                ps = [p for p in ps if p != '']
                if g is False and ps and ps[0] is nm:
                    ps = ps[1:]
                    if len(ps) == 1 and isinstance(ps[0], str) and ps[0].startswith('_'):
                        ps = [ps[0][1:]]
                    elif not ps:
                        continue
                if len(ps) == 1 and ps[0] == 'current':
                    continue
                k = ''.join(p if isinstance(p, str) else '{%s}' % show(p)[:30] for p in ps)
                got.setdefault(k, []).append(x[2])
        on, has = is_some(o, F(SELF, tr)), is_some(o, val)
        site = fn['p'] + '|stats'
        if not (on and has):
            ctx.ob(not got, 'stats', site + '|off', 'statistics %s are shown although nothing is tracked' % sorted(got), fn, detail=fmt_facts(o)[:500])
            continue
        its = [e for e, p in events(o.ev) if e.a[0] == 'SecondsBuckets::iter']
        ctx.ob(set(got) == set(STATS) and all(len(v) == 1 for v in got.values()), 'stats', site + '|names', 'the statistics are shown as %s' % sorted(got), fn)
        if set(got) != set(STATS):
            continue
        # are there values in the window on this path?
        filled = None
        for a, s in o.facts.items():
            if a.op == 'int':
                d, c = lin_of(a.a[0])
                if len(d) == 1 and next(iter(d)).op == 'rec':
                    k = fold(next(iter(d)), roles, zero)
                    if k in (('sum', 'count'), ('number', None)) and c == 0 and list(d.values()) == [1]:
                        filled = s[0][0] >= 1 if s[0][0] >= 1 or s[-1][1] <= 0 else None
            if filled is None and a.op == 'exists':
                filled = None
        if filled is None:
            ctx.ob(False, 'empty', site + '|any', 'whether there are values in the window makes no difference', fn, detail=fmt_facts(o)[:800])
            continue
        cur = F(val, 'Some.0')
        for k, (how, role) in STATS.items():
            t = inner(got[k][0])
            if not filled:
                same = uncast(t) is cur or t.op == 'app' and t.a[0] == 'i2f' and uncast(t.a[1]) is cur
                ctx.ob(same, 'empty', site + '|' + k, 'without values in the window %s is %s' % (k, show(t)[:120]), fn)
                continue
            names = {}
            bad = None
            for r in recs_in(t):
                q = fold(r, roles, zero)
                if q is None:
                    names = None
                    break
                if isinstance(q, str):
                    bad = q
                else:
                    names[r] = q
            if bad:
                ctx.ob(False, 'stats', site + '|' + k, '%s %s' % (k, bad), fn, detail=show(t)[:800])
                continue
            if names is None:
                ctx.undecided.append('%s: %s is computed in a way not recognised: %s' % (fn['p'], k, show(t)[:300]))
                continue
            if how in ('max', 'min'):
                ok = uncast(t) in names and names[uncast(t)] == (how, role)
                ctx.ob(ok, 'stats', site + '|' + k, '%s is %s' % (k, sorted(map(str, names.values()))), fn, detail=show(t)[:800])
            else:
                over = ('sum', 'count') if role == 'sum' else ('number', None)
                env, need = {}, {('sum', role): 30.0, over: 8.0}
                for r, q in names.items():
                    env[r] = need.get(q, float('nan'))
                v = fval(t, env)
                ctx.ob(v == 3.75, 'stats', site + '|' + k, '%s is computed from %s' % (k, sorted(map(str, names.values()))), fn, detail=show(t)[:800])


def flat(p):
    if isinstance(p, str):
        return p
    if p.op == 'agg' and tyname(p.a[0]) == 'Cow':
        q = p.a[2][0][1]
        return q.a[1] if q.op == 'k' else q
    return p
