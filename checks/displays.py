"""P16: switches, P17: displays of the last observation."""
from instr import *
from snapshots import fstr, mentions_ty
from gauges import relation, exactly
from spec import *

SWITCHES = {'OccurrenceIndicator': 'if_happened_within', 'NonOccurrenceIndicator': 'if_not_happened_within', 'StaircaseTimer': 'switch_off_after'}
INVERTED = ('show_inverted_prefixed', 'show_inverted_postfixed', 'show_inverted_renamed')
X = IN('text')
IGNORED = frozenset(('one', 'many', 'Float', 'Duration', 'ChangedBy'))


def at(t, name):
    """the readings of the clock in t happened at the time called `name`: (term, every reading was the same one)"""
    seen = set()

    def f(x):
        if is_now(x):
            seen.add(x)
            return IN(name)
        return None
    return rebuild(t, f), len(seen) <= 1


def at_facts(facts, name):
    return {at(a, name)[0]: s for a, s in facts.items()}


def setup(ctx, ty, obj, method, *args, facts=None):
    """the object after a setter (set_… or the builder)"""
    for m in ('set_' + method, method):
        fn = ctx.inh(ty, m, opt=True)
        if fn is None:
            continue
        outs = ctx.run(fn, args=[obj] + list(args), facts=facts)
        if outs and len(outs) == 1:
            return outs[0].final(obj) if m.startswith('set_') else outs[0].ret
        return None
    return None


def arg_field(ctx, ty, method):
    """the place a setter stores what it is given in"""
    ch, fn = setter_effect(ctx, ty, method)
    fs = [f for f, vs in (ch or {}).items() if any(v is arg(1) or v.op == 'agg' and len(v.a[2]) == 1 and v.a[2][0][1] is arg(1) for v in vs)]
    return F(SELF, fs[0]) if len(fs) == 1 else None


def elapsed(o, t0, D):
    """(lowest, highest) of: time now since t0 minus D on this path; None: it did not find out"""
    for nw in nows(o):
        r = relation(o.facts, nw, add(t0, D))
        if r is not None:
            return r
    return None


def nows(o):
    s = set()

    def f(x):
        if is_now(x):
            s.add(x)
    for a in o.facts:
        walk(a, f)
    return sorted(s, key=show)


def overflowed(o, t0, D):
    """can the time D after t0 not be represented"""
    return any(a.op == 'bool' and a.a[0].op == 'app' and str(a.a[0].a[0]).startswith('overflow:add') and D in a.a[0].a and t0 in a.a[0].a and True in s and len(s) == 1
               for a, s in o.facts.items())


YEAR = 365 * 24 * 3600 * 10 ** 9


def in_time(o, t0, D):
    """is it less than D since t0: True, False, None: either (just now), '?': not known"""
    if overflowed(o, t0, D):
        r = [relation(o.facts, nw, t0) for nw in nows(o)]
        return None if any(x is not None and x[0] >= YEAR for x in r) else True
    r = elapsed(o, t0, D)
    if r is None:
        return '?'
    if r[1] < 0:
        return True
    if r[0] > 0:
        return False
    if r[1] <= 0:                                          # up to the very end
        return True if r[0] < 0 else None
    if r[0] >= 0:
        return False
    return '?'


def key_is(k, how, nm):
    p = fstr(k)
    want = {'show_inverted_prefixed': [X, nm], 'show_inverted_postfixed': [nm, X], 'show_inverted_renamed': [X]}[how]
    p = [x for y in p for x in (fstr(y) if isinstance(y, N) and y.op == 'fmt' else [y])]
    return [unwrapped(x) for x in p if x != ''] == want


def unwrapped(x):
    while isinstance(x, N) and x.op == 'agg' and x.a[1] in ('Borrowed', 'Owned') and len(x.a[2]) == 1:
        x = x.a[2][0][1]
    return x


# -------------------------------------------------------------------- P16
def p16(ctx):
    ctx.rule('state', 'a switch is on exactly as long as its last observation says, or inverted')
    ctx.rule('fresh', 'a new switch has the documented state')
    ctx.rule('updated', 'every observation that switches reports 1, every other 0')
    ctx.rule('inverted', 'the inverted value is shown under the chosen name exactly when asked for and is the negation of the value shown')
    ctx.rule('getter', 'the state a switch reports is the one it shows')
    for ty, method in SWITCHES.items():
        timer(ctx, ty, method)
    flag(ctx)


def variants_of(ctx, ty):
    """[(how the inverted value is shown, object, facts)]"""
    f = [n for n, t in ctx.fields(ty) if mentions_ty(t, 'NameAlternation')]
    res = []
    if len(f) == 1:
        res.append((None, SELF, {mk('disc', F(SELF, f[0]), frozenset(('None', 'Some'))): frozenset(('None',))}))
    else:
        ctx.undecided.append('%s: where the alternative name is kept: %s' % (ty, f))
    for how in INVERTED:
        o = setup(ctx, ty, SELF, how, X)
        if o is None:
            ctx.undecided.append('%s::%s can not be read' % (ty, how))
        else:
            res.append((how, o, {}))
    return res


def shows(ctx, ty, fn, o, seq, nm, how, want, site, rule='state'):
    """the items shown are the state (want: True, False, None: either) and its negation"""
    its = [(x[1], x[2]) for x in seq if x[0] == 'item']
    own = [v for k, v in its if k is nm or norm(k) is nm]
    others = [(k, v) for k, v in its if not (k is nm or norm(k) is nm)]
    if len(own) != 1 or own[0].op != 'agg' or own[0].a[1] != 'Boolean':
        ctx.ob(False, rule, site + '|shown', '%s shows %s under its name' % (ty, [show(v) for v in own]), fn)
        return
    v = truth(o, inner(own[0]))
    if v is None and want is not None:
        ctx.ob(False, rule, site + '|value', '%s shows %s instead of %s' % (ty, show(own[0])[:120], want), fn, detail=fmt_facts(o))
    else:
        ctx.ob(want is None or v is want, rule, site + '|value', '%s shows %s instead of %s' % (ty, v, want), fn, detail=fmt_facts(o))
    if how is None:
        ctx.ob(not others, 'inverted', site + '|none', '%s shows %s though no inverted value was asked for' % (ty, [show(k)[:60] for k, _ in others]), fn)
        return
    good = len(others) == 1 and key_is(others[0][0], how, nm)
    ctx.ob(good, 'inverted', site + '|key', '%s shows the inverted value (%s) under %s' % (ty, how, [show(k)[:80] for k, _ in others]), fn)
    if len(others) == 1:
        w = truth(o, inner(others[0][1]))
        neg_ = w is not None and v is not None and w is not v or neg(inner(own[0])) is inner(others[0][1])
        ctx.ob(neg_, 'inverted', site + '|negation', '%s shows %s as the inverted value of %s' % (ty, w, v), fn, detail=fmt_facts(o))


def timer(ctx, ty, method):
    D = arg_field(ctx, ty, method)
    inv = arg_field(ctx, ty, 'invert_enabled') if ctx.inh(ty, 'set_invert_enabled', opt=True) else arg_field(ctx, ty, 'invert')
    nm = F(SELF, 'name')
    if D is None or inv is None:
        ctx.undecided.append('%s: where its duration and inversion are kept' % ty)
        return
    mark_unsigned(D)
    vs = variants_of(ctx, ty)
    for kind, u, x in updates(ctx):
        for how, obj, facts in (vs if kind == 'one' else vs[:1]):
            fn, outs = run_update(ctx, ty, u, facts=facts, obj=obj)
            for o in outs or []:
                site = '%s|%s|%s' % (fn['p'], kind, how)
                ctx.ob(o.ret is kint(1), 'updated', site + '|ret', '%s reports %s for an observation (%s)' % (ty, show(o.ret), kind), fn)
                s1, one = at(o.final(obj), 't0')
                if not one:
                    ctx.undecided.append('%s: reads the clock more than once' % fn['p'])
                    continue
                judge_timer(ctx, ty, s1, at_facts(o.facts, 't0'), IN('t0'), D, inv, nm, how, kind)
    # a new one
    fr = new_object(ctx, ty)
    nf = ctx.inh(ty, 'new')
    if fr is None:
        ctx.undecided.append('%s::new can not be read' % ty)
        return
    fr1, one = at(fr.ret, 't0')
    fn, ls = shown(ctx, ty, fr1, facts=at_facts(fr.facts, 't0'))
    Df = F(fr1, D.a[1])
    mark_unsigned(Df)
    for o, seq in ls:
        want = False
        if ty == 'NonOccurrenceIndicator':
            want = in_time(o, IN('t0'), Df)
            want = want if want in (None, '?') else not want
            if want == '?':
                ctx.ob(False, 'fresh', nf['p'] + '|time', 'a new %s does not depend on the time since it was created' % ty, nf, detail=fmt_facts(o))
                continue
        shows(ctx, ty, fn, o, seq, F(fr1, 'name'), None, want, nf['p'], 'fresh')


def judge_timer(ctx, ty, s1, facts, t0, D, inv, nm, how, kind):
    fn = ctx.trait_fn(ty, 'PutsSnapshot', 'put_snapshot')
    g = ctx.inh(ty, 'state', opt=True)
    for i in (True, False):
        f1 = dict(facts)
        f1[mk('bool', inv)] = frozenset((i,))
        runs = [(fn, o, seq) for o, seq in shown(ctx, ty, s1, facts=f1)[1]]
        if g is not None:
            runs += [(g, o, None) for o in ctx.run(g, args=[s1], facts=f1) or []]
        for f, o, seq in runs:
            site = '%s|%s|%s' % (f['p'], kind, how)
            w = in_time(o, t0, D)
            if w == '?':
                ctx.ob(False, 'state', site + '|time', '%s: its state does not depend on whether the time since the last observation is within its duration' % ty, f, detail=fmt_facts(o))
                continue
            want = None if w is None else (w != (ty == 'NonOccurrenceIndicator')) != i
            if seq is None:
                v = truth(o, o.ret)
                ctx.ob(want is None or v is want, 'getter', site, '%s reports the state %s instead of %s' % (ty, show(o.ret), want), f, detail=fmt_facts(o))
            else:
                shows(ctx, ty, f, o, seq, nm, how, want, site)


def flag(ctx):
    ty = 'Flag'
    nm = F(SELF, 'name')
    p = ctx.adt('Update')['p']
    given = [(k, v, agg(p, 'ObservationWithValue', [('0', observed(ctx, k, x)), ('1', T)])) for k, v, x in (
        ('Bool', True, TRUE), ('Bool', False, FALSE), ('SignedInteger', True, kint(1)), ('SignedInteger', False, kint(0)),
        ('UnsignedInteger', True, kint(1)), ('UnsignedInteger', False, kint(0)))]
    vs = variants_of(ctx, ty)
    for k, want, u in given:
        for how, obj, facts in vs:
            fn, outs = run_update(ctx, ty, u, facts=facts, obj=obj)
            site = '%s|%s|%s|%s' % (fn['p'], k, want, how)
            for o in outs or []:
                ctx.ob(o.ret is kint(1), 'updated', site + '|ret', 'a flag reports %s for a value (%s)' % (show(o.ret), k), fn)
                f2, ls = shown(ctx, ty, o.final(obj), facts=o.facts)
                for o2, seq in ls:
                    shows(ctx, ty, f2, o2, seq, nm, how, want, site)
    for kind, u, x in updates(ctx):
        if kind in IGNORED:
            fn, outs = run_update(ctx, ty, u)
            for o in outs or []:
                ctx.ob(o.ret is kint(0) and not changed(ctx, ty, o), 'updated', '%s|%s' % (fn['p'], kind), 'an observation (%s) that is no value for a flag makes it report %s and changes %s' % (
                    kind, show(o.ret), sorted(changed(ctx, ty, o))), fn)
    fr = new_object(ctx, ty)
    if fr is not None:
        fn, ls = shown(ctx, ty, fr.ret, facts=fr.facts)
        for o, seq in ls:
            ctx.ob(not any(x[0] == 'item' for x in seq), 'fresh', fn['p'] + '|new', 'a new flag shows a state', fn)
    fn = ctx.inh(ty, 'new_with_state', opt=True)
    if fn is not None:
        for b in (TRUE, FALSE):
            for o in ctx.run(fn, args=[arg(0), b]) or []:
                f2, ls = shown(ctx, ty, o.ret, facts=o.facts)
                for o2, seq in ls:
                    shows(ctx, ty, f2, o2, seq, F(o.ret, 'name'), None, b is TRUE, fn['p'], 'fresh')


# -------------------------------------------------------------------- P17
KINDS = {'SignedInteger': 'Int', 'UnsignedInteger': 'UInt', 'Float': 'Float', 'Bool': 'Boolean'}


def p17(ctx):
    ctx.rule('value', 'a display shows the value observed last, as it is, until it is reset')
    ctx.rule('reset', 'after the reset time without a new value the reset value is shown')
    ctx.rule('fresh', 'before the first value the reset value is shown, if there is one')
    ctx.rule('updated', 'an observation that is shown reports 1, every other 0 and changes nothing')
    ctx.rule('elapsed', 'a last occurrence tracker shows the whole seconds since the last observation')
    display(ctx)
    tracker(ctx)


def display(ctx):
    ty = 'DataDisplay'
    D, V = IN('D'), IN('reset value')
    mark_unsigned(D)
    fr = new_object(ctx, ty)
    if fr is None:
        ctx.undecided.append('DataDisplay::new can not be read')
        return
    ups = list(updates(ctx))
    for kind, u, x in ups:
        if kind in KINDS:
            continue
        fn, outs = run_update(ctx, ty, u)
        for o in outs or []:
            ctx.ob(o.ret is kint(0) and not changed(ctx, ty, o), 'updated', '%s|%s' % (fn['p'], kind), 'an observation (%s) without a value to show makes a display report %s and changes %s' % (
                kind, show(o.ret), sorted(changed(ctx, ty, o))), fn)
    for hasd in (False, True):
        for hasv in (False, True):
            obj = fr.ret
            if hasd:
                obj = setup(ctx, ty, obj, 'reset_after', D)
            if hasv and obj is not None:
                obj = setup(ctx, ty, obj, 'reset_value', V)
            if obj is None:
                ctx.undecided.append('DataDisplay: a setter can not be read')
                continue
            nm = F(obj, 'name')
            label = 'reset after %s to %s' % ('D' if hasd else 'nothing', 'V' if hasv else 'nothing')
            fn, ls = shown(ctx, ty, obj)
            for o, seq in ls:
                ctx.ob(displays(seq, nm) == ('V' if hasv else None), 'fresh', '%s|%s' % (fn['p'], label), 'a new display (%s) shows %s' % (label, displays(seq, nm)), fn)
            first = run_chain(ctx, ty, [(obj, {})], ups, 'Bool', 't0', D, hasd, hasv, label)
            for k in KINDS:
                run_chain(ctx, ty, first, ups, k, 't1', D, hasd, hasv, label + '|second')
    Df = arg_field(ctx, ty, 'reset_after')
    if Df is not None:
        ds = F(Df, 'Some.0')
        mark_unsigned(ds)
        facts = {mk('disc', Df, frozenset(('None', 'Some'))): frozenset(('Some',))}
        for k in KINDS:
            run_chain(ctx, ty, [(SELF, facts)], ups, k, 't0', ds, True, None, 'any state')


def displays(seq, nm):
    its = [x for x in seq if x[0] == 'item' and (x[1] is nm or norm(x[1]) is nm)]
    if len(its) != len(seq):
        return '?'
    if not its:
        return None
    if len(its) > 1:
        return '?'
    v = its[0][2]
    if mentions(v, lambda t: t is IN('reset value')):
        return 'V'
    return v


def run_chain(ctx, ty, objs, ups, kind, t, D, hasd, hasv, label):
    u, x = next((u, x) for k, u, x in ups if k == kind)
    res = []
    for obj, facts in objs:
        nm = F(obj, 'name')
        fn, outs = run_update(ctx, ty, u, facts=facts, obj=obj)
        for o in outs or []:
            site = '%s|%s|%s' % (fn['p'], kind, label)
            ctx.ob(o.ret is kint(1), 'updated', site + '|ret', 'a display reports %s for an observation (%s)' % (show(o.ret), kind), fn)
            s1, one = at(o.final(obj), t)
            if not one:
                ctx.undecided.append('%s: reads the clock more than once' % fn['p'])
                continue
            f1 = at_facts(o.facts, t)
            res.append((s1, f1))
            f2, ls = shown(ctx, ty, s1, facts=f1)
            for o2, seq in ls:
                got = displays(seq, nm)
                w = True if not hasd else in_time(o2, IN(t), D)
                isv = isinstance(got, N) and got.op == 'agg' and got.a[1] == KINDS[kind] and (inner(got) is x or same_int(inner(got), x) or known(o2.facts, x) is inner(got))
                isr = got == 'V' if hasv else got is None if hasv is False else reset_of(ctx, ty, o2, got)
                if w == '?':
                    ctx.ob(False, 'reset', site + '|time', 'whether a display is reset does not depend on the time since the last value', f2, detail=fmt_facts(o2))
                elif w is None:
                    ctx.ob(isv or isr, 'value', site + '|either', 'a display shows %s' % shw(got), f2, detail=fmt_facts(o2))
                elif w:
                    ctx.ob(isv, 'value', site, 'a display shows %s instead of the value (%s)' % (shw(got), kind), f2, detail=fmt_facts(o2))
                else:
                    ctx.ob(isr, 'reset', site, 'a display shows %s instead of the reset value after the reset time' % shw(got), f2, detail=fmt_facts(o2))
    return res


def reset_of(ctx, ty, o, got):
    ch, _ = setter_effect(ctx, ty, 'reset_value')
    fs = [f for f, t in ctx.fields(ty) if f in (ch or {})]
    for f in fs:
        s = is_some(o, F(SELF, f))
        if s is False and got is None:
            return True
        if isinstance(got, N) and s is True and got is F(SELF, f, 'Some.0'):
            return True
    return False


def shw(x):
    return show(x)[:120] if isinstance(x, N) else 'nothing' if x is None else str(x)


def tracker(ctx):
    ty = 'LastOccurrenceTracker'
    nm = F(SELF, 'name')
    for kind, u, x in updates(ctx):
        fn, outs = run_update(ctx, ty, u)
        for o in outs or []:
            site = '%s|%s' % (fn['p'], kind)
            ctx.ob(o.ret is kint(1), 'updated', site + '|ret', 'a tracker reports %s for an observation (%s)' % (show(o.ret), kind), fn)
            s1, one = at(o.final(SELF), 't0')
            if not one:
                ctx.undecided.append('%s: reads the clock more than once' % fn['p'])
                continue
            f2, ls = shown(ctx, ty, s1, facts=at_facts(o.facts, 't0'))
            for o2, seq in ls:
                its = [y for y in seq if y[0] == 'item']
                v = its[0][2] if len(its) == 1 and (its[0][1] is nm or norm(its[0][1]) is nm) else None
                w = uncast(inner(v)) if v is not None and v.op == 'agg' and v.a[1] in ('UInt', 'Int') else None
                good = w is not None and w.op == 'app' and w.a[0] == 'div' and isint(w.a[2]) and w.a[2].a[1] == 10 ** 9 and since(w.a[1], IN('t0'))
                if not good and w is not None and isint(w) and w.a[1] == 0:
                    r = None
                    for n in nows(o2):
                        r = relation(o2.facts, n, IN('t0'))
                        good = good or r is not None and r[1] < 10 ** 9
                ctx.ob(good, 'elapsed', site, 'a tracker shows %s instead of the seconds since the last observation' % (show(v)[:120] if v is not None else [show_seq([y]) for y in seq][:2]), f2,
                       detail=fmt_facts(o2))
    fr = new_object(ctx, ty)
    if fr is None:
        ctx.undecided.append('LastOccurrenceTracker::new can not be read')
        return
    for z in (None, TRUE, FALSE):
        obj = fr.ret if z is None else setup(ctx, ty, fr.ret, 'make_none_zero', z)
        if obj is None:
            ctx.undecided.append('LastOccurrenceTracker::set_make_none_zero can not be read')
            continue
        fn, ls = shown(ctx, ty, obj)
        for o, seq in ls:
            its = [y for y in seq if y[0] == 'item']
            zero = len(its) == 1 and (its[0][1] is F(obj, 'name') or norm(its[0][1]) is F(obj, 'name')) and its[0][2].op == 'agg' and inner(its[0][2]) is kint(0)
            ctx.ob(zero if z is TRUE else not seq, 'fresh', '%s|%s' % (fn['p'], 'zero' if z is TRUE else 'none'), 'a tracker without an observation shows %s' % [show(y[2]) for y in its], fn)


def since(t, t0):
    d, c = lin_of(t)
    r = [y for y in d if y is not t0]
    return c == 0 and d.get(t0) == -1 and len(r) == 1 and is_now(r[0]) and d[r[0]] == 1
