"""P29: nothing that is installed is lost.  P31: settings do what they are named for."""
from instr import *
from snap import *
from spec import *
from undisturbed import changes
import labels
import flow
from flow import ME

KINDS = ('HandlesObservations', 'PutsSnapshot', 'ProcessesTelemetryMessages')


def list_slots(ctx, p):
    out = {}
    for tr in KINDS:
        for s in slots(ctx.db, p, tr, SELF):
            n = s.coll if s.coll is not None else s.guards[-1] if s.guards else s.recv
            out.setdefault(n, s)
    return out


def containers(ctx):
    for p in sorted(ctx.db.adts):
        a = ctx.db.adts[p]
        if a.get('enum') or len(a.get('vs', [])) != 1:
            continue
        sl = list_slots(ctx, p)
        if any(s.coll is not None for s in sl.values()):
            yield p, sl


def mode_of(f, p):
    b = f['body']
    t = b['locals'][1] if b['argc'] else {}
    if t.get('k') == 'ref' and t.get('m') and isinstance(t.get('t'), dict) and t['t'].get('p') == p:
        return 'mut'
    if t.get('k') == 'adt' and t.get('p') == p:
        r = b['locals'][0]
        return 'own' if r.get('k') == 'adt' and r.get('p') == p else None
    return None


def methods(ctx, p, pub=True):
    for q, f in sorted(ctx.db.fns.items()):
        s = f.get('impl_self')
        if f['kind'] == 'AssocFn' and isinstance(s, dict) and s.get('p') == p and f.get('body') and (f.get('pub') or not pub or f.get('impl_trait')):
            yield q, f


def name_of(f):
    return f['p'].rsplit('::', 1)[-1]


def plain_arg(v, a):
    """is the value the argument, possibly converted"""
    v = norm(v)
    while v.op == 'app' and str(v.a[0]).startswith(('into:', 'from:')) and len(v.a) == 2:
        v = v.a[1]
    return v is a


def installs(ctx, v, a, f):
    """is the value the argument: itself, converted, or in an adapter that takes everything as it is"""
    if plain_arg(v, a):
        return True
    v = norm(v)
    if v.op == 'agg' and tyname(str(v.a[0])) == 'InstrumentAdapter':
        inf = ctx.field_by('InstrumentAdapter', lambda t: t['k'] == 'param', 'instrument')
        ff = ctx.field_by('InstrumentAdapter', lambda t: is_adt(t, 'LabelFilter'), 'label filter')
        mf = ctx.field_by('InstrumentAdapter', lambda t: is_adt(t, 'UpdateModifier'), 'modifier')
        mod = F(v, mf)
        return F(v, inf) is a and labels.filter_ok(ctx, F(v, ff), 'all', None, f) is True and mod.op == 'agg' and mod.a[1] == 'KeepAsIs'
    return False


def within(a, n):
    """is the place a below the place n"""
    while a.op in ('f', 'elem') or a.op == 'upd':
        a = a.a[0]
        if a is n:
            return True
    return False


def appended(v, old):
    """what a list has more than before, or None if it is not the old list with something behind it"""
    out = []
    while v is not old:
        if v.op != 'list':
            return None
        out = list(v.a[1]) + out
        v = v.a[0]
        if v is None:
            return None
    return out


def p29(ctx):
    R = 'add'
    ctx.rule(R, 'each function that adds something to a component puts exactly that into exactly one of its places, and keeps everything that was there')
    K_ = 'keep'
    ctx.rule(K_, 'no other function takes anything out of a component, except those made for removing')
    ctx.rule('list', 'a function that lists what a component holds gives each part once')
    n = 0
    for p, sl in containers(ctx):
        ty = tyname(p)
        names = {name_of(f) for _, f in methods(ctx, p)}
        for q, f in methods(ctx, p):
            m = mode_of(f, p)
            nm = name_of(f)
            if m is None:
                continue
            outs = ctx.run(f)
            if outs is None:
                continue
            adds = f['body']['argc'] == 2 and (nm.startswith('add_') or 'add_' + nm in names)
            if adds:
                n += 1
            for o in outs:
                fin = o.final(SELF) if m == 'mut' else o.ret
                ch = changes(SELF, fin)
                hit = [(a, v) for a, v in ch if any(a is s or within(a, s) or within(s, a) for s in sl)]
                if any(a is SELF for a, _ in hit):
                    if m == 'own':
                        ctx.undecided.append('%s: the component is put together anew' % q)
                    else:
                        ctx.ob(False, K_, q, '%s::%s replaces the whole %s' % (ty, nm, ty), f, detail=o.show())
                    continue
                if adds:
                    one_add(ctx, R, ty, nm, q, f, o, ch, hit, sl)
                    replaced(ctx, R, ty, nm, q, f, o, sl, True)
                else:
                    replaced(ctx, K_, ty, nm, q, f, o, sl, False)
                    keeps(ctx, K_, ty, nm, q, f, o, hit, sl)
        for q, f in methods(ctx, p):
            listing(ctx, ty, q, f, sl)
    ctx.ob(n >= 25, R, 'found', 'functions that add something are missing: only %d found' % n)
    ctx.extra['functions_that_add'] = n


def listing(ctx, ty, q, f, sl):
    """a function that lists what a component holds lists all of it"""
    b = f['body']
    if b['argc'] != 1 or b['locals'][1].get('k') != 'ref' or not is_adt(b['locals'][0], 'Vec') or f.get('impl_trait'):
        return
    for o in ctx.run(f) or ():
        ss = [s for s in sl if mentions(o.ret, lambda t: t is s)]
        if len(ss) != 1 or sl[ss[0]].coll is None:
            ctx.undecided.append('%s: what it lists is not understood' % q)
            continue
        ctx.ob(all_of(norm_rec(o.ret), ss[0]), 'list', q, '%s::%s does not give each of %s once: %s' % (ty, name_of(f), show(ss[0]), show(o.ret)[:200]), f, detail=o.show())


def norm_rec(v):
    while v.op == 'post':
        v = v.a[-1]
    return v


def all_of(v, s):
    if v is s:
        return True
    if v.op != 'rec' or norm(v.a[0]) is not s or v.a[1].op != 'list' or v.a[1].a[0] is not None or v.a[1].a[1]:
        return False
    for facts, x in v.a[2]:
        more = appended(x, ME)
        if more is None or len(more) != 1 or not mentions(norm(more[0]), lambda t: t.op == 'elem' and t.a[0] is s):
            return False
    return True


def one_add(ctx, R, ty, nm, q, f, o, ch, hit, sl):
    site = '%s|add' % q
    what = '%s::%s' % (ty, nm)
    for a, v in ch:
        if not any(a is h for h, _ in hit):
            ctx.ob(False, R, site + '|else', '%s also changes %s' % (what, show(a)), f, detail=o.show())
    if not hit:
        taken = any(not made_over(x) and (x.op == 'eq' and s == frozenset((True,)) and mentions(x, lambda t: t is arg(1)) or
                    x.op == 'bool' and s == frozenset((True,)) and mentions(x, lambda t: t.op == 'eq') and mentions(x, lambda t: t is arg(1)) or
                    x.op == 'exists' and mentions(x, lambda t: t is arg(1)))
                    for x, s in dict(o.facts).items())
        ctx.ob(taken, R, site + '|lost', '%s loses what it is given' % what, f, detail=o.show())
        return
    gains, losses = [], []
    for a, v in hit:
        s = next(s for s in sl if a is s or within(a, s) or within(s, a))
        if a is not s:
            ctx.ob(False, R, site + '|part', '%s changes %s, which is part of what is installed' % (what, show(a)), f, detail=o.show())
            return
        if sl[s].coll is not None:
            more = appended(v, s)
            if more is None and v.op not in ('list', 'filtered', 'rec', 'agg', 'upd') and mentions(v, lambda t: t is s) and mentions(v, lambda t: t is arg(1)):
                ctx.undecided.append('%s: what the list becomes is not understood' % q)
                return
            ctx.ob(more is not None, R, site + '|keeps', '%s does not keep what is in %s: it becomes %s' % (what, show(s), show(v)[:200]), f, detail=o.show())
            gains += more or ()
        else:
            if facts_some(dict(o.facts), s) is not False:
                losses.append((s, proj_get(s, 'Some.0')))
            if v.op == 'agg' and v.a[1] == 'Some':
                gains.append(proj_get(v, 'Some.0'))
    for s, x in losses:
        moved = [g for g in gains if norm(g) is x or norm(g).op == 'app' and str(norm(g).a[0]).startswith('into:') and norm(g).a[1] is x]
        ctx.ob(len(moved) == 1, R, site + '|overwrites', '%s overwrites what is in %s' % (what, show(s)), f, detail=o.show())
        for g in moved[:1]:
            gains.remove(g)
    ctx.ob(len(gains) == 1 and installs(ctx, gains[0], arg(1), f), R, site + '|given', '%s puts [%s] into %s' % (
        what, ', '.join(show(x)[:150] for x in gains), ', '.join(show(a) for a, _ in hit)), f, detail=o.show())


def made_over(x):
    """does a test look at something made out of a text instead of the text"""
    return mentions(x, lambda t: t.op in ('app', 'call') and str(t.a[0]).startswith('str::') and t.a[0] not in ('str::as_bytes', 'str::bytes', 'str::chars', 'str::cmp'))


def replaced(ctx, R, ty, nm, q, f, o, sl, adding):
    """nothing takes the place of something that is in one of the lists"""
    for s in sl:
        if sl[s].coll is None:
            continue
        e = mk('elem', sl[s].coll)
        v = o.final(e)
        if v is e:
            continue
        ctx.ob(not adding and mentions(v, lambda t: t is e), R, '%s|instead|%s' % (q, show(s)), '%s::%s puts something else in the place of what is in %s: %s' % (ty, nm, show(s), show(v)[:200]), f, detail=o.show())


def keeps(ctx, R, ty, nm, q, f, o, hit, sl):
    site = '%s|keep' % q
    for a, v in hit:
        s = next(s for s in sl if a is s or within(a, s) or within(s, a))
        if a is not s and within(a, s):
            ctx.ob(True, R, site, '', f)                       # the part itself changes, as by handling an observation
            continue
        if nm.startswith(('remove', 'clear', 'take')):
            ctx.ob(True, R, site, '', f)
            continue
        bad = lost(v, s)
        ctx.ob(bad is None, R, site + '|' + show(a), '%s::%s takes something out of %s: it becomes %s' % (ty, nm, show(a), show(bad)[:200] if bad is not None else ''), f, detail=o.show())


def lost(v, s, me=None):
    """the value by which something that was in the place goes away, if there is one"""
    if v is s or v is me:
        return None
    if v.op == 'rec':
        bad = lost(v.a[1], s, me)
        for facts, x in v.a[2]:
            if bad is None and not asked(facts):
                bad = lost(x, s, ME)
        return bad
    if v.op == 'list' and v.a[0] is not None:
        return lost(v.a[0], s, me)
    if v.op in ('post', 'upd'):
        return lost(v.a[-1] if v.op == 'post' else v.a[0], s, me)
    if v.op == 'agg' and v.a[1] == 'Some':
        x = v.a[2][0][1] if isinstance(v.a[2][0], tuple) else v.a[2][0]
        return None if mentions(x, lambda t: t is s or t is me) else v
    return v


def asked(facts):
    """does a step only happen for a message that asks for removing"""
    return any(x.op == 'disc' and s and all('Remove' in str(y) for y in s) for x, s in (facts.items() if isinstance(facts, dict) else facts))


# ---------------------------------------------------------------- settings
SAME = [('show_inverted', 'show_inverted_prefixed', 'show_inverted_postfixed', 'show_inverted_renamed')]
NAMED = {'prefixed': 'Prefix', 'postfixed': 'Postfix', 'renamed': 'Rename'}
METER = {'lower_cutoff': K('float', '0.001'), 'one_minute_rate_enabled': TRUE, 'five_minute_rate_enabled': FALSE, 'fifteen_minute_rate_enabled': FALSE}
FRESH = {'Meter': METER, 'ValueMeter': METER,
         'Histogram': {'reset_after_inactivity': TRUE, 'show_activity_state': TRUE},
         'Panel': {'show_activity_state': TRUE}, 'Cockpit': {'show_activity_state': TRUE}, 'TelemetryProcessor': {'show_activity_state': TRUE},
         'OccurrenceIndicator': {'invert_enabled': FALSE}, 'NonOccurrenceIndicator': {'invert_enabled': FALSE},
         'StaircaseTimer': {'invert': FALSE, 'switch_off_after': kint(60 * 10 ** 9)},
         'DataDisplay': {'reset_after': NONE, 'reset_value': NONE},
         'LastOccurrenceTracker': {'invert_enabled': FALSE, 'make_none_zero': FALSE},
         'DriverBuilder': {'driver_metrics': TRUE}}
GETTERS = {'invert_enabled': ('is_inverted',), 'invert': ('invert', 'is_inverted')}


def takes(v, a):
    """does the value keep what the argument is: True, False, or None if it is not clear"""
    while True:
        if v is a:
            return True
        if v.op == 'app' and str(v.a[0]).startswith(('into:', 'from:')) and len(v.a) == 2:
            v = v.a[1]
        elif v.op == 'agg' and len(v.a[2]) == 1:
            v = v.a[2][0][1] if isinstance(v.a[2][0], tuple) else v.a[2][0]
        else:
            break
    if not mentions(v, lambda t: t is a):
        return False
    if v.op in ('agg', 'list', 'rec', 'upd', 'call', 'post'):
        return None
    return False


def own_changes(o, m):
    return changes(SELF, o.final(SELF) if m == 'mut' else o.ret)


def p31(ctx):
    ctx.rule('stores', 'a function that sets something stores what it is given, whatever that is, and changes no other setting')
    ctx.rule('alike', 'the form that returns the component sets the same as the one that changes it')
    ctx.rule('reads', 'what reads a setting gives what was set')
    ctx.rule('fresh', 'a new component has the name it was given, no title and no description, and the documented defaults')
    n = 0
    defaults(ctx)
    for p in sorted(ctx.db.adts):
        a = ctx.db.adts[p]
        if a.get('enum') or len(a.get('vs', [])) != 1:
            continue
        ms = {name_of(f): f for _, f in methods(ctx, p) if not f.get('impl_trait') and f['body']['argc'] == 2 and mode_of(f, p)}
        sets = sorted(m for m in ms if m.startswith('set_'))
        if not sets:
            continue
        ty = tyname(p)
        n += len(sets)
        places = {}
        objs = {}
        for m in sets:
            places[m[4:]], objs[m[4:]] = stored(ctx, 'stores', ty, ms[m], p)
        owner = {}
        for s, ps in places.items():
            for x in ps:
                owner.setdefault(x, set()).add(s)
        for x, ss in owner.items():
            ctx.ob(len(ss) == 1 or any(ss <= set(g) for g in SAME), 'stores', '%s|%s|apart' % (ty, show(x)),
                   '%s: %s is set by %s' % (ty, show(x), ', '.join('set_' + s for s in sorted(ss))), ms['set_' + min(ss)])
        for m in sets:
            others(ctx, ty, m[4:], ms[m], p, places)
        for s in places:
            if s in ms:
                got, _ = stored(ctx, 'alike', ty, ms[s], p)
                ctx.ob(got == places[s], 'alike', '%s|%s' % (ty, s), '%s::%s sets %s, set_%s sets %s' % (ty, s, names_of(got), s, names_of(places[s])), ms[s])
                others(ctx, ty, s, ms[s], p, places)
            reads(ctx, ty, p, s, objs[s], ms['set_' + s])
        fresh(ctx, ty, p, places)
    readers(ctx)
    ctx.ob(n >= 70, 'stores', 'found', 'functions that set something are missing: only %d found' % n)
    ctx.extra['settings'] = n


def names_of(ps):
    return ', '.join(sorted(show(x) for x in ps)) or 'nothing'


def stored(ctx, rule, ty, f, p):
    """the places that keep the argument, and (object after, facts) for each path"""
    nm, m = name_of(f), mode_of(f, p)
    own, objs, unkept = set(), [], []
    outs = ctx.run(f) or ()
    for o in outs:
        ch = own_changes(o, m)
        site = '%s|%s' % (f['p'], nm)
        about = any(mentions(x, lambda t: t is arg(1)) for x in dict(o.facts))
        kept, unclear = set(), False
        for a, v in ch:
            t = takes(v, arg(1))
            if t is None:
                unclear = True
                kept.add(a)
            elif t:
                kept.add(a)
            if t:
                for suffix, var in NAMED.items():
                    if nm.endswith('_' + suffix):
                        ctx.ob(mentions(v, lambda t: t.op == 'agg' and t.a[1] == var), rule, site + '|kind', '%s::%s does not make the name %s: %s' % (ty, nm, suffix, show(v)[:150]), f)
        if not kept:
            unkept.append((o, ch, about, site))
            continue
        own |= kept
        if kept and not unclear:
            objs.append((o.final(SELF) if m == 'mut' else o.ret, o))
    for o, ch, about, site in sorted(unkept, key=lambda x: not x[1]):
        if about and pinned(o, ch, own):
            own |= {a for a, _ in ch}
            continue
        ctx.ob(False, rule, site, '%s::%s does not store what it is given: it changes %s' % (ty, nm, ', '.join('%s to %s' % (show(a), show(v)[:80]) for a, v in ch) or 'nothing'), f, detail=o.show())
    return own, objs


def pinned(o, ch, own):
    """is the argument known to be what is written, what is there already, or zero"""
    b = truth(o, arg(1))
    n = one_value(o.facts, arg(1))
    if ch:
        return all(b is not None and v is kbool(b) or n is not None and v is kint(n) for _, v in ch)
    if n == 0:
        return True
    for x in own:
        if b is not None and truth(o, x) is b:
            return True
        if n is not None and one_value(o.facts, x) == n:
            return True
    return any(x.op == 'eq' and s == frozenset((True,)) and mentions(x, lambda t: t is arg(1)) and mentions(x, lambda t: any(t is y for y in own)) or
               x.op == 'int' and s == ((0, 0),) and set(lin_of(x.a[0])[0]) >= {arg(1)} and any(y in lin_of(x.a[0])[0] for y in own) for x, s in dict(o.facts).items())


def one_value(facts, t):
    for x, s in dict(facts).items():
        if x.op == 'int' and len(s) == 1 and s[0][0] == s[0][1]:
            d, c = lin_of(x.a[0])
            if list(d) == [t] and abs(d[t]) == 1:
                return (s[0][0] - c) * d[t]
    return None


def others(ctx, ty, s, f, p, places):
    m = mode_of(f, p)
    for o in ctx.run(f) or ():
        for a, v in own_changes(o, m):
            for t, ps in places.items():
                if t != s and not any(s in g and t in g for g in SAME) and any(a is x or within(x, a) for x in ps) and a not in places[s]:
                    ctx.ob(False, 'stores', '%s|%s|other|%s' % (ty, s, t), '%s::%s also changes what set_%s sets: %s becomes %s' % (ty, name_of(f), t, show(a), show(v)[:100]), f, detail=o.show())


def reads(ctx, ty, p, s, objs, setter):
    """a getter of the component run on what the setter leaves"""
    for q, g in methods(ctx, p):
        b = g['body']
        if b['argc'] != 1 or b['locals'][1].get('k') != 'ref' or b['locals'][1].get('m'):
            continue
        nm = name_of(g)
        tr = g.get('impl_trait')
        if tr and not tr.endswith('Descriptive'):
            continue
        if nm not in (s, 'get_' + s) + GETTERS.get(s, ()):
            continue
        for obj, o in objs:
            for r in ctx.run(g, args=[obj], facts=o.facts) or ():
                t = takes(r.ret, arg(1))
                if not t and r.ret in (TRUE, FALSE):
                    t = truth(r, arg(1)) is (r.ret is TRUE)
                if t is None:
                    ctx.undecided.append('%s: what it gives is not understood' % q)
                    continue
                ctx.ob(t, 'reads', '%s|%s' % (q, s), '%s::%s gives %s after %s' % (ty, nm, show(r.ret)[:150], name_of(setter)), g, detail=r.show())


ACCESSORS = ('name', 'title', 'description', 'processors', 'snapshooters', 'gauge', 'instrument')


def plainly(ctx, q, g, what):
    """what reads a setting gives the content of one place, whatever is in it, and nothing else"""
    outs = ctx.run(g)
    got = set()
    for r in outs or ():
        v = norm(r.ret)
        if v in (TRUE, FALSE):
            for at, s in r.facts.items():
                if at.op == 'bool' and s == frozenset((v is TRUE,)):
                    got.add(('is', at.a[0]))
                    break
            else:
                got.add(('fixed', v))
            extra = len(r.facts) - 1
        elif v.op == 'agg' and v.a[0] == OPT and v.a[1] == 'None':
            pl = [at.a[0] for at, s in r.facts.items() if at.op == 'disc' and s == frozenset(('None',))]
            got.add(('is', pl[0]) if len(pl) == 1 else ('fixed', v))
            extra = len(r.facts) - len(pl[:1])
        elif v.op == 'agg' and v.a[0] == OPT:
            x = norm(proj_get(v, 'Some.0'))
            pl = [at.a[0] for at, s in r.facts.items() if at.op == 'disc' and s == frozenset(('Some',)) and F(at.a[0], 'Some.0') is x]
            got.add(('is', pl[0]) if pl else ('fixed', v))
            extra = len(r.facts) - len(pl)
        else:
            if mentions(v, lambda t: t.op in ('call', 'app', 'post', 'lv', 'rec')):
                ctx.undecided.append('%s: what it gives is not understood: %s' % (q, show(v)[:100]))
                return
            got.add(('is', v))
            extra = len(r.facts)
        ctx.ob(extra <= 0, 'reads', '%s|plain' % q, '%s: what it gives also depends on something else (%s)' % (what, fmt_facts(r)[:200]), g, detail=r.show())
    ctx.ob(len(got) == 1 and not any(k == 'fixed' and v is not NONE for k, v in got), 'reads', '%s|one' % q, '%s gives %s instead of what is in one place' % (
        what, ' or '.join(sorted(show(v)[:80] for _, v in got))), g)
    return [v for k, v in got if k == 'is']


def readers(ctx):
    n = 0
    for p in sorted(ctx.db.adts):
        here = {}
        for q, g in methods(ctx, p):
            b = g['body']
            if b['argc'] != 1 or b['locals'][1].get('k') != 'ref' or b['locals'][1].get('m') or g.get('kind') == 'Closure':
                continue
            nm, tr = name_of(g), g.get('impl_trait') or ''
            if tr and not tr.endswith('Descriptive') or not tr and not g.get('pub'):
                continue
            if nm.startswith('get_') or nm in ACCESSORS:
                n += 1
                for x in plainly(ctx, q, g, '%s::%s' % (tyname(p), nm)) or ():
                    here.setdefault(nm.replace('get_', ''), set()).add(x)
        for a in here:
            for b in here:
                if a < b:
                    ctx.ob(not (here[a] & here[b]), 'reads', '%s|%s|%s' % (p, a, b), '%s: %s and %s give the same' % (tyname(p), a, b))
    ctx.ob(n >= 50, 'reads', 'found', 'functions that read something are missing: only %d found' % n)
    # a driver is given its name and descriptions only when it is made
    new = ctx.inh('TelemetryDriver', 'new')
    for o in ctx.run(new) or ():
        obj = part_of(o.ret, ctx.adt('TelemetryDriver')['p'])
        pars = {x[0]: x[1]['l'] for x in new['body']['names'] if not x[1]['p'] and 1 <= x[1]['l'] <= new['body']['argc']}
        for i, (nm, g) in enumerate((('name', ctx.inh('TelemetryDriver', 'name')), ('title', ctx.trait_fn('TelemetryDriver', 'Descriptive', 'title')),
                                     ('description', ctx.trait_fn('TelemetryDriver', 'Descriptive', 'description')))):
            if obj is None:
                continue
            a = arg(pars.get(nm, i + 1))
            for r in ctx.run(g, args=[obj], facts=o.facts) or ():
                v = norm(r.ret)
                good = v is a or v is NONE and is_some(r, a) is False or v.op == 'agg' and v.a[1] == 'Some' and proj_get(v, 'Some.0') is F(a, 'Some.0')
                ctx.ob(good, 'reads', 'TelemetryDriver|%s' % nm, 'the %s of a driver is %s' % (nm, show(v)[:100]), g, detail=r.show())


def part_of(v, p):
    """the new component in what a constructor returns"""
    if v.op == 'agg' and v.a[0] == p:
        return v
    if v.op in ('tuple', 'agg'):
        for x in v.a[-1]:
            x = x[1] if isinstance(x, tuple) else x
            if isinstance(x, N):
                y = part_of(x, p)
                if y is not None:
                    return y
    return None


def defaults(ctx):
    """a driver, unless told otherwise, drops what is older than 30 s but no deltas, and has metrics of its own"""
    def strategy(v, f, site, what):
        good = v.op == 'agg' and v.a[1] == 'DropOlderThan' and F(v, 'max_age') is kint(30 * 10 ** 9) and F(v, 'drop_deltas') is FALSE
        ctx.ob(good, 'fresh', site, '%s: by default messages are processed as %s instead of dropping what is older than 30 seconds, except deltas' % (what, show(v)[:120]), f)
    f = ctx.trait_fn('ProcessingStrategy', 'Default', 'default', opt=True)
    for o in (ctx.run(f) or ()) if f else ():
        strategy(o.ret, f, f['p'], 'ProcessingStrategy')
    bp = ctx.adt('DriverBuilder')['p']
    for f in (ctx.trait_fn('DriverBuilder', 'Default', 'default', opt=True), ctx.inh('DriverBuilder', 'new', opt=True)):
        for o in (ctx.run(f) or ()) if f else ():
            strategy(F(o.ret, 'processing_strategy'), f, f['p'] + '|strategy', 'DriverBuilder')
            ctx.ob(F(o.ret, 'with_driver_metrics') is TRUE, 'fresh', f['p'] + '|metrics', 'DriverBuilder: driver metrics are not on by default', f)
    f = ctx.trait_fn('TelemetryDriver', 'Default', 'default', opt=True)
    for o in (ctx.run(f, barrier=set(BARRIER) | {'TelemetryDriver::new'}) or ()) if f else ():
        for e, _ in events(o.ev, 'TelemetryDriver::new'):
            vals = [e.a[1]] + list(e.a[2])
            if len(vals) != 5:
                ctx.undecided.append('%s: %s' % (f['p'], show(e)[:150]))
                continue
            for v, n in zip(vals, ('name', 'title', 'description')):
                ctx.ob(v is NONE, 'fresh', '%s|%s' % (f['p'], n), 'a default driver has the %s %s' % (n, show(v)[:80]), f)
            strategy(vals[3], f, f['p'] + '|strategy', 'TelemetryDriver')
            ctx.ob(vals[4] is TRUE, 'fresh', f['p'] + '|metrics', 'a default driver has no metrics of its own', f)


def fresh(ctx, ty, p, places):
    for q, f in methods(ctx, p):
        b = f['body']
        r = b['locals'][0]
        if b['argc'] and (b['locals'][1].get('p') == p or b['locals'][1].get('k') == 'ref' and (b['locals'][1].get('t') or {}).get('p') == p):
            continue
        if r.get('p') != p and not any(isinstance(x, dict) and x.get('p') == p for x in r.get('a') or []):
            continue
        if f.get('impl_trait') and not f['impl_trait'].endswith('Default'):
            continue
        pars = {n: x['l'] for n, x in b['names'] if not x['p'] and 1 <= x['l'] <= b['argc']}
        outs = ctx.run(f)
        for o in outs or ():
            obj = part_of(o.ret, p)
            if obj is None:
                ctx.undecided.append('%s: what it makes is not understood' % q)
                continue
            wants = dict(FRESH.get(ty, {}))
            for d in ('title', 'description'):
                g = ctx.trait_fn(ty, 'Descriptive', d, opt=True) if d in places and d not in pars else None
                for r in (ctx.run(g, args=[obj], facts=o.facts) or () if g else ()):
                    ctx.ob(r.ret.op == 'agg' and r.ret.a[1] == 'None', 'fresh', '%s|%s|read' % (q, d), '%s: %s gives %s without having been set' % (q, d, show(r.ret)[:100]), g)
            for s, ps in places.items():
                for x in ps:
                    v = lookup_in(obj, x)
                    if v is None:
                        continue
                    if s in pars:
                        ctx.ob(takes(v, arg(pars[s])) is not False, 'fresh', '%s|%s' % (q, s), '%s: the %s of the new %s is %s' % (q, s, ty, show(v)[:100]), f)
                    elif s in ('title', 'description', 'inactivity_limit') or s == 'name' and v.op == 'agg' and v.a[1] in ('Some', 'None'):
                        ctx.ob(v.op == 'agg' and v.a[1] == 'None', 'fresh', '%s|%s' % (q, s), '%s: a new %s already has a %s: %s' % (q, ty, s, show(v)[:100]), f)
                    elif s in wants:
                        w = wants[s]
                        ctx.ob(v is w or w not in (TRUE, FALSE) and fconst(v) is not None and fconst(v) == fconst(w), 'fresh', '%s|%s' % (q, s),
                               '%s: %s is %s by default instead of %s' % (q, s, show(v)[:100], show(w)), f)
