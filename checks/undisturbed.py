"""P30: a snapshot changes nothing that is measured."""
from instr import *
from waiting import target
from snap import *
from spec import *
import processing
import flow

QUIET = {'drop', 'lock', 'PutsSnapshot::put_snapshot', 'already-borrowed'}
LOUD = ('Updates::update', '::handle_observation', '::process', '::send', '::try_send', '::recv', '::try_recv', '::spawn', '::transmit')


def is_now(t):
    return processing.is_now(t) or t.op == 'call' and str(t.a[0]).endswith('::now')


def changes(place, v):
    """[(place, new value)] of the parts of a place that differ from what they were"""
    if v is place:
        return []
    if v.op == 'upd':
        out = [] if v.a[0] is place else changes(place, v.a[0])
        for k, x in v.a[1]:
            if isinstance(k, str):
                out += changes(F(place, k), x)
            else:
                out.append((place, v))
        return out
    return [(place, v)]


def inst_type(t):
    while t.get('k') == 'ref' or t.get('k') == 'adt' and tyname(t['p']) in ('Cell', 'RefCell', 'Mutex', 'Box', 'Arc', 'Rc', 'Option') and t.get('a'):
        t = t['t'] if t['k'] == 'ref' else t['a'][0]
    return t


def type_at(ctx, ty, place):
    """the type of a place below SELF"""
    path = []
    while place.op == 'f':
        path.append(place.a[1])
        place = place.a[0]
    if place is not SELF:
        return None
    t = {'k': 'adt', 'p': ctx.adt(ty)['p'], 'a': []}
    for k in reversed(path):
        if not isinstance(k, str):
            return None
        if k.startswith('Some.'):
            continue
        a = ctx.db.adts.get(t.get('p'))
        if a is None or a.get('enum'):
            return None
        for n, u, *_ in a['vs'][0]['f']:
            if n == k:
                t = inst_type(u)
                break
        else:
            return None
    return t


def is_time(t):
    return t is not None and t.get('k') == 'adt' and tyname(t['p']) == 'Instant'


def ages(facts):
    """times of the component that the clock is known to have reached (or passed by a second)"""
    out = []
    for a, s in dict(facts).items():
        if a.op != 'int' or not s:
            continue
        d, c = lin_of(a.a[0])
        lo, hi = s[0][0] - c, s[-1][1] - c
        out += gone(d, lo, hi)
        if len(d) == 1:
            t, k = next(iter(d.items()))
            if t.op == 'app' and t.a[0] == 'div' and isint(t.a[2]) and k == 1 and lo >= 1:
                out += gone(lin_of(t.a[1])[0], 0, INF)
        elif lo >= 0 and hi == INF:                                            # n*(gone/unit) - something unsigned, such as a length, at least 1
            for t, k in d.items():
                if t.op == 'app' and t.a[0] == 'div' and k > 0 and all(j < 0 and is_unsigned(u) for u, j in d.items() if u is not t):
                    out += gone(lin_of(t.a[1])[0], 0, INF)
    return out


def gone(d, lo, hi):
    n = [k for t, k in d.items() if is_now(t)]
    if len(n) != 1 or len(d) != 2 or abs(n[0]) != 1:
        return []
    if n[0] > 0 and lo >= 0 or n[0] < 0 and hi <= 0:
        return [norm(t) for t in d if not is_now(t)]
    return []


def clock_rings(ctx):
    """types that keep a list, a place in it and a time, and their functions that take nothing but themselves and give nothing"""
    out = {}
    for p, a in ctx.db.adts.items():
        if a.get('enum') or len(a.get('vs', [])) != 1:
            continue
        ts = [f[1] for f in a['vs'][0]['f']]
        if any(flow.is_adt(t, 'Vec') for t in ts) and any(is_time(t) for t in ts):
            ms = [f for f in ctx.db.fns.values() if f['kind'] == 'AssocFn' and f['span'][0] == a['span'][0] and f['body']['argc'] == 1 and
                  f['body']['locals'][1].get('k') == 'ref' and f['body']['locals'][1].get('m') and inst_type(f['body']['locals'][1]).get('p') == p and
                  is_unit(f['body']['locals'][0])]
            inside = {target(t[1]) for f in ms for b in f['body']['blocks'] for t in [b['t']] if t[0] == 'call'}
            out[p] = [f for f in ms if f['p'] not in inside]  # steps they are made of are judged as part of them
    return out


def is_unit(t):
    return t.get('k') == 'tuple' and not (t.get('a') or t.get('ts') or t.get('t')) or t.get('s') == '()' or prim(t) == '()'


def p30(ctx):
    ctx.rule('measured', 'nothing in the component changes but for what depends on the time gone by')
    ctx.rule('time', 'what depends on the time gone by only changes when time has gone by since it last did')
    ctx.rule('silent', 'no observation, update or message is produced')
    ctx.rule('given', 'what the snapshot already contains stays as it is')
    rings = clock_rings(ctx)
    moves = {flow.short(f['p']) for ms in rings.values() for f in ms}
    fns = [f for p, f in sorted(ctx.db.fns.items()) if (f.get('impl_trait') or '').endswith('PutsSnapshot') and p.endswith('::put_snapshot')]
    ctx.ob(len(fns) > 0, 'measured', 'components', 'there is nothing that puts a snapshot', None)
    for fn in fns:
        ty = tyname(fn['impl_self']['p']) if isinstance(fn.get('impl_self'), dict) else tyname(fn['p'].split(' as ')[0].lstrip('<').split('<')[0])
        outs = ctx.run(fn, barrier=set(BARRIER) | moves)
        if outs is None:
            continue
        for o in outs:
            one(ctx, ty, fn, o, moves, rings)
        ctx.sample('%s: %d paths' % (ty, len(outs)))
    for p, ms in rings.items():
        for f in ms:
            ring_moves(ctx, p, f)


def one(ctx, ty, fn, o, moves, rings):
    site = fn['p']
    old = ages(o.facts)
    for place, v in changes(SELF, o.final(SELF)):
        t = type_at(ctx, ty, place)
        if v.op in ('post', 'upd') and t is not None and t.get('p') in rings and only_moved(place, v, moves):
            ctx.ob(True, 'measured', '%s|%s' % (site, show(place)), '', fn)
            continue
        aged = any(x is place for x in old) or v.op == 'rec' and guarded(v, place)
        if is_time(t):
            ctx.ob(aged, 'time', '%s|%s' % (site, show(place)), 'a snapshot changes the time %s to %s without any time having gone by' % (show(place), show(v)[:150]), fn, detail=fmt_facts(o))
        else:
            ctx.ob(False, 'measured', '%s|%s' % (site, show(place)), 'a snapshot changes %s to %s' % (show(place), show(v)[:150]), fn, detail=fmt_facts(o))
    for x in o.ev:
        effects(ctx, ty, fn, o, x, False, moves)
    try:
        base, seq = base_items(o.final(arg(1)))
    except Odd:
        return
    ctx.ob(norm(base).op == 'f' and norm(base).a[0] is arg(1) or norm(base) is arg(1), 'given', site, 'the items the snapshot has already become %s' % show(base)[:150], fn)


def only_moved(place, v, moves):
    while v.op == 'post' and v.a[0] in moves:
        v = v.a[-1]
    return v is place


def guarded(v, place):
    """is each step of the loop only taken when the clock is beyond the time"""
    while v.op == 'rec':
        for f, _ in v.a[2]:
            if not any(a.op == 'int' and any(is_now(t) for t in lin_of(a.a[0])[0]) for a, _ in f):
                return False
        v = v.a[1]
    return v is place


def effects(ctx, ty, fn, o, x, aged, moves):
    """aged: inside a loop each round of which needs time to have gone by"""
    if x.op == 'loop':
        for fam in x.a[1]:
            facts, evs, writes = fam[0], fam[1], fam[2] if len(fam) > 2 else ()
            g = aged or bool(ages(facts))
            for n, v in [w for w in writes if isinstance(w, tuple) and len(w) == 2]:
                if mentions(n, lambda t: t is SELF):
                    ctx.ob(g, 'measured', '%s|%s' % (fn['p'], show(n)[:100]), 'a snapshot changes %s to %s' % (show(n)[:100], show(v)[:150]), fn)
            for y in evs:
                effects(ctx, ty, fn, o, y, g, moves)
        return
    if x.op != 'ev':
        return
    name = x.a[0]
    if name.startswith('atomic-') and name != 'atomic-load':
        ctx.ob(aged, 'measured', '%s|%s' % (fn['p'], name), 'a snapshot changes the number %s' % show(x.a[1])[:100], fn, detail=fmt_facts(o))
    elif any(name.endswith(l) or ('::' + name).endswith(l) for l in LOUD):
        asks = ty == 'TelemetryDriver' and name in ('Sender::send', 'Receiver::recv')         # it is put by the thread of the driver
        ctx.ob(asks, 'silent', '%s|%s' % (fn['p'], name), 'a snapshot leads to %s' % show(x)[:150], fn, detail=fmt_facts(o))
    else:
        ctx.ob(True, 'silent', '%s|%s' % (fn['p'], name), '', fn)


def ring_moves(ctx, p, fn):
    """the functions that move a ring on do not touch it while no time has gone by"""
    for o in ctx.run(fn) or []:
        ch = changes(SELF, o.final(SELF))
        if not ch:
            continue
        ctx.ob(bool(ages(o.facts)), 'time', fn['p'], '%s changes without any time having gone by' % ', '.join(show(q) for q, _ in ch), fn, detail=fmt_facts(o))
