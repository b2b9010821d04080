"""Label filters, and the adapters that gate instruments by label."""
from spec import *

X = IN('x')


def eq(a, b):
    return cmp_eq(a, b)


def accepts_of(ctx, filt, facts=None, x=X):
    return ctx.run(ctx.inh('LabelFilter', 'accepts'), barrier=[], args=[filt, x], facts=facts)


def exists_in(o, coll):
    """does this outcome say the label is (not) among the elements of coll"""
    for a, s in o.facts.items():
        if a.op == 'exists' and norm(a.a[0]) is coll and len(s) == 1:
            return True in s
    return None


def any_of(o, terms):
    """truth of the disjunction of boolean terms"""
    r = [truth(o, t) for t in terms]
    if True in r:
        return True
    return False if all(x is False for x in r) else None


def same_fn(ctx, rule, site, outs, want, msg, fn):
    if outs is None:
        return
    for o in outs:
        w = want(o)
        ctx.ob((o.ret is TRUE and w is True) or (o.ret is FALSE and w is False), rule, site,
               '%s: answers %s where it must answer %s' % (msg, show(o.ret)[:80], 'something else' if w is None else w), fn, detail=o.show())


def vec_filter(ctx, fn, src, rule, site, msg):
    """the filter returned by fn accepts exactly the elements of the list `src`"""
    outs = ctx.run(fn, barrier=['LabelFilter::accept_another', 'LabelFilterInternal::add_label'])
    if outs is None:
        return
    for o in outs:
        evs = [(e, p) for e, p in events(o.ev) if e.a[0] in ('LabelFilter::accept_another', 'LabelFilterInternal::add_label')]
        lp = [l for l in o.ev if l.op == 'loop']
        if evs and lp:
            good = len(lp) == 1 and lp[0].a[0] is not None and norm(lp[0].a[0]) is src and lp[0].a[2]
            ctx.ob(good, rule, site + '|all', msg + ': not every label of the list is added', fn, detail=o.show())
            if not good:
                continue
            for alt in lp[0].a[1]:
                es = [e for e in alt[1] if e.op == 'ev']
                ctx.ob(any(e.a[2] and e.a[2][0] is mk('elem', src) for e in es), rule, site + '|each',
                       msg + ': a label of the list is not added', fn, detail=show_ev(lp[0]))
                ctx.ob(all(e.a[2] and e.a[2][0] is mk('elem', src) for e in es), rule, site + '|only',
                       msg + ': something else than the labels of the list is added', fn, detail=show_ev(lp[0]))
            init = o.ret
            init = norm(init)
            if init.op == 'agg':
                init = agg(init.a[0], init.a[1], [(k, norm(v)) for k, v in init.a[2]])
            same_fn(ctx, rule, site + '|start', accepts_of(ctx, init), lambda p: False, msg + ': labels are accepted before any was added', fn)
            continue
        if evs:
            ctx.undecided.append('%s: labels added outside a loop' % fn['p'])
            continue
        for p in accepts_of(ctx, o.ret, o.facts) or ():
            w = exists_in(p, src)
            if w is None:
                if not mentions(p.ret, lambda n: n.op == 'in') and not [a for a in p.facts if a.op in ('exists', 'eq')]:
                    ctx.ob(False, rule, site + '|const', msg + ': the answer does not depend on the list', fn, detail=p.show())
                else:
                    ctx.undecided.append('%s: membership in the list not recognised' % fn['p'])
            else:
                ctx.ob(p.ret is kbool(w), rule, site + '|member', msg + ': wrong answer', fn, detail=p.show())


def p02(ctx):
    R = 'membership'
    ctx.rule(R, 'a label filter made from labels accepts a label exactly when it equals one of them; from a predicate exactly when the '
                'predicate says so; accept-all always, accept-none never')
    A = 'extension'
    ctx.rule(A, 'after accept_another(l) a filter accepts x exactly when it accepted x before or x == l (checked for every internal form: '
                'by induction every filter ever built from labels is right)')
    acc = ctx.inh('LabelFilter', 'accepts')
    n = 0
    for f in ctx.data['fns']:
        t = f.get('impl_self')
        if not (f.get('name') == 'from' and t and t['k'] == 'adt' and tyname(t['p']) == 'LabelFilter' and f['kind'] != 'Closure'):
            continue
        src = IN('#1')
        ty = f['impl_trait_args'][0] if f.get('impl_trait_args') else f['body']['locals'][1]
        ty = f['body']['locals'][1]
        site = 'From<%s>' % f['p'].split('From<')[-1].split('>>::')[0].split('::')[-1]
        msg = 'the filter converted from %s' % site[5:-1]
        n += 1
        name = tyname(ty['p']) if ty['k'] == 'adt' else ty['k']
        if name == 'Vec':
            vec_filter(ctx, f, src, R, site, msg)
            continue
        outs = ctx.run(f, barrier=[])
        for o in outs or ():
            ao = accepts_of(ctx, o.ret, o.facts)
            if ty['k'] == 'param':
                same_fn(ctx, R, site, ao, lambda p: truth(p, eq(X, src)), msg, f)
            elif ty['k'] == 'tuple':
                same_fn(ctx, R, site, ao, lambda p: any_of(p, [eq(X, F(src, str(i))) for i in range(len(ty['a']))]), msg, f)
            elif name in ('L', 'AcceptOneLabel'):
                same_fn(ctx, R, site, ao, lambda p: truth(p, eq(X, F(src, '0'))), msg, f)
            elif name == 'AcceptAllLabels':
                same_fn(ctx, R, site, ao, lambda p: True, msg, f)
            elif name == 'AcceptNoLabel':
                same_fn(ctx, R, site, ao, lambda p: False, msg, f)
            elif name in ('LabelPredicate', 'LP'):
                same_fn(ctx, R, site, ao, lambda p: predicate_truth(p, F(src, '0')), msg, f)
            else:
                ctx.undecided.append('unknown source of a label filter: %s' % f['p'])
    ctx.ob(n >= 12, R, 'conversions', 'conversions into a label filter are missing: %d found' % n)
    for name, want in (('new', lambda p: truth(p, eq(X, IN('#1')))), ('predicate', lambda p: predicate_truth(p, IN('#1'))),
                       ('accept_all', lambda p: True), ('accept_none', lambda p: False)):
        f = ctx.inh('LabelFilter', name)
        for o in ctx.run(f, barrier=[]) or ():
            same_fn(ctx, R, 'LabelFilter::' + name, accepts_of(ctx, o.ret, o.facts), want, 'LabelFilter::' + name, f)
    f = ctx.trait_fn('LabelFilter', 'Default', 'default')
    for o in ctx.run(f, barrier=[]) or ():
        same_fn(ctx, R, 'LabelFilter::default', accepts_of(ctx, o.ret, o.facts), lambda p: True, 'the default filter', f)
    # --- extension, for every internal form
    f = ctx.inh('LabelFilter', 'accept_another')
    forms = 0
    for o in ctx.run(f, barrier=[]) or ():
        new = o.final(SELF)
        form = '; '.join(sorted(showset(s) for a, s in o.facts.items() if a.op == 'disc'))
        for p in accepts_of(ctx, new, o.facts) or ():
            forms += 1
            old = accepts_of(ctx, SELF, p.facts)
            if old is None:
                continue
            before = {q.ret for q in old}
            e = truth(p, eq(X, arg(1)))
            if before == {TRUE} or e is True:
                w = True
            elif before == {FALSE} and e is False:
                w = False
            else:
                w = None
            ctx.ob(w is not None and p.ret is kbool(w), A, 'accept_another|' + form,
                   'after adding a label to a filter of form %s the answer for some label is wrong: %s instead of %s' % (
                       form, show(p.ret)[:60], w), f, detail=p.show())
    ctx.ob(forms > 0, A, 'forms', 'no form of a filter could be extended', f)
    ctx.sample('accepts: %d paths' % len(ctx.run(acc, barrier=[]) or ()))
    # --- accepting does not change the filter
    ctx.rule('pure', 'asking a filter does not change it')
    for o in ctx.run(acc, barrier=[]) or ():
        ctx.ob(o.final(SELF) is SELF, 'pure', 'accepts', 'LabelFilter::accepts changes the filter', acc)


def predicate_truth(p, pred):
    """what the predicate answers for x on this path (None: not asked)"""
    for a, s in p.facts.items():
        t = a.a[0] if a.op == 'bool' else None
        if t is not None and t.op == 'call' and t.a[0].startswith('callfn') and t.a[2] is pred and len(s) == 1:
            return True in s
    return None


# ---------------------------------------------------------------------------- adapters
UPD = 'Updates::update'
ACC = 'LabelFilter::accepts'
VEC_BARRIER = ('HandlesObservations::handle_observation', 'PutsSnapshot::put_snapshot', ACC, UPD, 'LabelFilter::accept_another',
               'LabelFilterInternal::add_label')


def update_of(ctx, variant, name='obs'):
    """the update an observation must become"""
    p = ctx.adt('Update')['p']
    n = lambda f: IN('%s.%s' % (name, f))
    return {'Observed': agg(p, 'Observations', [('0', n('count')), ('1', n('timestamp'))]),
            'ObservedOne': agg(p, 'Observation', [('0', n('timestamp'))]),
            'ObservedOneValue': agg(p, 'ObservationWithValue', [('0', n('value')), ('1', n('timestamp'))])}[variant]


def unit_change(ctx, by, name='obs'):
    v = agg(ctx.adt('ObservedValue')['p'], 'ChangedBy', [('0', kint(by))])
    return agg(ctx.adt('Update')['p'], 'ObservationWithValue', [('0', v), ('1', IN(name + '.timestamp'))])


def filter_ok(ctx, r, kind, src, fn):
    """is `r` a filter that accepts what the constructor promises? True/False/None"""
    if kind == 'into':
        return r.op in ('call', 'app', 'into') and src in r.a or (r.op == 'in' and r is src) or show(r).startswith('into:') and mentions(r, lambda n: n is src)
    if kind == 'vec':
        f = [f for f in ctx.data['fns'] if f.get('name') == 'from' and tyname(f.get('impl_self', {}).get('p', '') or '') == 'LabelFilter'
             and is_adt(f['body']['locals'][1], 'Vec')]
        if not f:
            raise Missing('From<Vec<L>> for LabelFilter')
        outs = ctx.run(f[0], barrier=VEC_BARRIER, args=[src])
        if outs is not None and any(o.ret is r for o in outs):
            return True
        if not mentions(r, lambda n: n is src):
            return False
        return None if not mentions(r, lambda n: n.op == 'iter' or n.op == 'app') else False
    outs = accepts_of(ctx, r)
    if outs is None:
        return None
    for o in outs:
        w = {'label': lambda: truth(o, eq(X, src)), 'predicate': lambda: predicate_truth(o, src), 'all': lambda: True,
             'none': lambda: False}[kind]()
        if w is None or o.ret is not kbool(w):
            return False
    return True


def fn_plan(ctx, f):
    """(mode, filter kinds, filter sources, instrument) promised by a constructor's name and parameters"""
    body = f['body']
    names = {p['l']: n for n, p in body['names'] if not p['p'] and 1 <= p['l'] <= body['argc']}
    has_self = names.get(1) == 'self'
    nodes, tys = [], []
    for i in range(body['argc']):
        nodes.append(SELF if has_self and i == 0 else IN('#%d' % (i + (0 if has_self else 1))))
        tys.append(body['locals'][i + 1])
    name = f['name']
    mode = 'deltas' if 'deltas_only' in name else 'incdec' if name.startswith('inc_dec') else 'plain'
    ins = [i for i, t in enumerate(tys) if (t['k'] == 'adt' and tyname(t['p']) != 'Vec') or (t['k'] == 'param' and t['s'] == 'I')]
    if len(ins) != 1:
        return None
    rest = [i for i in range(len(tys)) if i != ins[0]]
    kinds = []
    for i in rest:
        t = tys[i]
        if t['k'] == 'adt' and tyname(t['p']) == 'Vec':
            kinds.append('vec')
        elif 'predicate' in name:
            kinds.append('predicate')
        elif name.startswith('for_label'):
            kinds.append('label')
        elif name in ('accept', 'deltas_only', 'inc_dec_on'):
            kinds.append('into')
        else:
            return None
    if not rest:
        kinds = {'deaf': ['none'], 'adapter': ['none'], 'new': ['all'], 'for_all_labels': ['all'], 'from': ['all']}.get(name)
        if kinds is None:
            return None
    return mode, kinds, [nodes[i] for i in rest] or [None], nodes[ins[0]]


def gate(ctx, rule, site, msg, fn, adapter, mode, kinds, srcs, instrument, modify, handle, facts=None):
    """what an adapter value does with each kind of observation"""
    for v in ('Observed', 'ObservedOne', 'ObservedOneValue'):
        ob = agg(ctx.adt('Observation')['p'], v, [(f, IN('obs.' + f)) for f in
                                                 {'Observed': ('label', 'count', 'timestamp'), 'ObservedOne': ('label', 'timestamp'),
                                                  'ObservedOneValue': ('label', 'value', 'timestamp')}[v]])
        outs = ctx.run(handle, barrier=VEC_BARRIER, args=[adapter, ob], facts=facts)
        if outs is None:
            continue
        st = '%s|%s' % (site, v)
        seen = set()
        for o in outs:
            asked = [(e.a[1], truth(o, e.a[3])) for e, p in events(o.ev, ACC)]
            ups = [e for e, p in events(o.ev, UPD)]
            lab = IN('obs.label')
            for e, p in events(o.ev, ACC):
                ctx.ob(e.a[2] and e.a[2][0] is lab, rule, st + '|label', msg + ': another label than the observation\'s is asked for', fn, detail=o.show())
            for r, ans in asked:
                good = [filter_ok(ctx, r, k, s, fn) if not callable(k) else k(r) for k, s in zip(kinds, srcs)]
                if None in good and True not in good:
                    ctx.undecided.append('%s: filter %s' % (fn['p'], show(r)[:120]))
                    continue
                ctx.ob(True in good, rule, st + '|filter', msg + ': labels are checked against another filter than the given one: %s' % show(r)[:160], fn)
            verdict = None
            if mode == 'incdec':
                ks = [[i for i in range(2) if (filter_ok(ctx, r, kinds[i], srcs[i], fn) if not callable(kinds[i]) else kinds[i](r))] for r, a in asked]
                said = {}
                for (r, a), k in zip(asked, ks):
                    if len(k) == 1:
                        said[k[0]] = a
                if said.get(0) is True:
                    verdict, want = True, unit_change(ctx, 1)
                elif said.get(0) is False and said.get(1) is True:
                    verdict, want = True, unit_change(ctx, -1)
                elif said.get(0) is False and said.get(1) is False:
                    verdict, want = False, None
                wants = [want] if verdict else []
            else:
                if len(asked) >= 1 and len(set(asked)) == 1:
                    verdict = asked[0][1]
                    if verdict is None and mode == 'deltas' and v != 'ObservedOneValue' and modify is None:
                        verdict = False      # not a change either way
                elif not asked and kinds[0] == 'all':
                    verdict = True
                elif not asked and kinds[0] == 'none':
                    verdict = False
                u = update_of(ctx, v)
                fns = [e for e, p in events(o.ev) if e.a[0].startswith('callfn')]
                wants = [u]
                mod = modify(o) if modify is not None else None
                if mod is not None:
                    if verdict:
                        ctx.ob(len(fns) == 1 and fns[0].a[1] is mod and fns[0].a[2] == (lab, u), rule, st + '|modify',
                               msg + ': the modifier is not applied to the label and the update exactly once', fn, detail=o.show())
                    wants = [fns[0].a[3]] if fns else []
                if mode == 'deltas' and verdict:
                    w = wants[0] if wants else None
                    isd = None
                    if w is not None:
                        if w.op == 'agg':
                            isd = w.a[1] == 'ObservationWithValue' and 'ChangedBy' in variant_of(o, proj_get(w, 'ObservationWithValue.0'), ctx.adt('ObservedValue')['p'], ctx.db)
                            if isd and variant_of(o, proj_get(w, 'ObservationWithValue.0'), ctx.adt('ObservedValue')['p'], ctx.db) != frozenset(('ChangedBy',)):
                                isd = None
                        else:
                            vs = variant_of(o, w, ctx.adt('Update')['p'], ctx.db)
                            if vs == frozenset(('ObservationWithValue',)):
                                vv = variant_of(o, proj_get(w, 'ObservationWithValue.0'), ctx.adt('ObservedValue')['p'], ctx.db)
                                isd = True if vv == frozenset(('ChangedBy',)) else False if 'ChangedBy' not in vv else None
                            elif 'ObservationWithValue' not in vs:
                                isd = False
                    ctx.ob(isd is not None, rule, st + '|deltas', msg + ': does not distinguish changes from other observations', fn, detail=o.show())
                    if isd is None:
                        continue
                    verdict = isd
            ctx.ob(verdict is not None, rule, st + '|gate', msg + ': the outcome does not depend on the label filter as it must', fn, detail=o.show())
            if verdict is None:
                continue
            seen.add(verdict)
            if verdict:
                ctx.ob(len(ups) == 1 and norm(ups[0].a[1]) is instrument, rule, st + '|once',
                       msg + ': an accepted observation updates the instrument %d times' % len(ups), fn, detail=o.show())
                for e in ups:
                    ctx.ob(bool(e.a[2]) and any(e.a[2][0] is w for w in wants), rule, st + '|update',
                           msg + ': the instrument gets %s' % show(e.a[2][0])[:200], fn, detail=o.show())
                    ctx.ob(o.ret is e.a[3], rule, st + '|count', msg + ': the reported number is not what the instrument reported', fn, detail=o.show())
            else:
                ctx.ob(not ups, rule, st + '|rejected', msg + ': an observation that must not reach the instrument updates it', fn, detail=o.show())
                ctx.ob(o.ret is kint(0), rule, st + '|rejected count', msg + ': a rejected observation is reported as an update', fn)
        if mode == 'plain' and kinds[0] not in ('all', 'none') or mode == 'incdec':
            ctx.ob(seen == {True, False}, rule, st + '|both', msg + ': accepting and rejecting are not both possible', fn)


def p03(ctx):
    R = 'gate'
    ctx.rule(R, 'an adapter passes an observation to its instrument exactly once if its filter accepts the label (and, for delta adapters, '
                'it is a change), not at all otherwise; increment/decrement adapters change by +1 / -1; the modifier applies to every accepted update')
    C = 'constructors'
    ctx.rule(C, 'every function returning an adapter or panel wires the given labels, predicate or filter and the given instrument')
    handles = {t: ctx.trait_fn(t, 'HandlesObservations', 'handle_observation') for t in ('InstrumentAdapter', 'GaugeAdapter')}
    # --- the adapters themselves, in any state
    h = handles['InstrumentAdapter']
    ff = ctx.field_by('InstrumentAdapter', lambda t: is_adt(t, 'LabelFilter'), 'label filter')
    inf = ctx.field_by('InstrumentAdapter', lambda t: t['k'] == 'param', 'instrument')
    mf = ctx.field_by('InstrumentAdapter', lambda t: is_adt(t, 'UpdateModifier'), 'modifier')

    def mod_of(node):
        def g(o):
            m = F(node, mf)
            vs = variant_of(o, m, ctx.adt('UpdateModifier')['p'], ctx.db)
            return F(m, 'Modify.0') if vs == frozenset(('Modify',)) else None
        return g
    gate(ctx, R, 'InstrumentAdapter', 'InstrumentAdapter', h, SELF, 'plain', [lambda r: r is F(SELF, ff)], [None], F(SELF, inf), mod_of(SELF), h)
    # --- constructors
    n = 0
    for f in ctx.data['fns']:
        if f['kind'] == 'Closure':
            continue
        t = f['body']['locals'][0]
        if not is_adt(t, 'InstrumentAdapter', 'GaugeAdapter'):
            continue
        ty = tyname(t['p'])
        site = f['p']
        if f['name'] in ('accept_no_labels', 'accept_all_labels', 'modify_with') and is_adt(f['body']['locals'][1], 'InstrumentAdapter'):
            n += 1
            for o in ctx.run(f) or ():
                kinds = [{'accept_no_labels': 'none', 'accept_all_labels': 'all'}.get(f['name'], lambda r: r is F(SELF, ff))]
                m = (lambda p: IN('#1')) if f['name'] == 'modify_with' else mod_of(SELF)
                gate(ctx, C, site, f['name'], f, o.ret, 'plain', kinds, [None], F(SELF, inf), m, handles[ty], o.facts)
                if f['name'] != 'modify_with':
                    ctx.ob(F(o.ret, mf) is F(SELF, mf), C, site + '|modifier', '%s: the modifier becomes %s' % (f['name'], show(F(o.ret, mf))[:100]), f, detail=o.show())
            continue
        pl = fn_plan(ctx, f)
        if pl is None:
            ctx.undecided.append('constructor of unknown kind: ' + f['p'])
            continue
        n += 1
        mode, kinds, srcs, ins = pl
        for o in ctx.run(f, barrier=VEC_BARRIER if 'vec' in kinds else BARRIER) or ():
            gate(ctx, C, site, f['p'].split('::')[-2] + '::' + f['name'], f, o.ret, mode, kinds, srcs, ins, None, handles[ty], o.facts)
    ctx.ob(n >= 90, C, 'found', 'constructors of adapters are missing: only %d found' % n)
    ctx.extra['adapter_constructors'] = n
    # --- panels
    pf = ctx.field_by('Panel', lambda t: is_adt(t, 'LabelFilter'), 'label filter')
    for f in ctx.data['fns']:
        if f['kind'] == 'Closure' or not f.get('pub') or f['body']['argc'] > 2 or not is_adt(f['body']['locals'][0], 'Panel') or \
                not is_adt(f.get('impl_self') or {'k': ''}, 'Panel'):
            continue
        names = [nm for nm, p in f['body']['names'] if not p['p'] and p['l'] == 1]
        if names == ['self']:
            continue
        n += 1
        kind = {'new': 'into', 'named': 'into', 'accept': 'into', 'accept_named': 'into', 'accept_all': 'all', 'accept_all_named': 'all'}.get(f['name'])
        if kind is None:
            kind = 'all'
        for o in ctx.run(f) or ():
            good = filter_ok(ctx, F(o.ret, pf), kind, IN('#1'), f)
            ctx.ob(good, C, f['p'] + '|filter', 'Panel::%s: the label filter of the panel is not the promised one' % f['name'], f, detail=o.show())
    f = ctx.inh('Panel', 'accepts_label')
    for o in ctx.run(f) or ():
        es = [e for e, p in events(o.ev, ACC)]
        ctx.ob(len(es) == 1 and es[0].a[1] is F(SELF, pf) and es[0].a[2] == (arg(1),) and (o.ret is es[0].a[3] or truth(o, es[0].a[3]) == (o.ret is TRUE)),
               C, 'Panel::accepts_label', 'Panel::accepts_label does not answer what the label filter says', f, detail=o.show())
