"""Rule layer: obligations, violations, evidence, and queries over function summaries."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import extract                                     # noqa: E402
import flow                                        # noqa: E402
from terms import *                                # noqa: E402,F401,F403
from flow import (DB, Engine, Budget, Outcome, tyname, short, strip_refs, unbox, prim, is_adt, show_ev,   # noqa: E402,F401
                  is_time_ty, ME)


class Missing(Exception):
    """an anchor the rule needs is not in the program"""


BARRIER = {
    'HandlesObservations::handle_observation', 'PutsSnapshot::put_snapshot', 'LabelFilter::accepts',
    'ProcessesTelemetryMessages::process', 'Updates::update',
}


def barrier_of(names):
    names = frozenset(names)

    def b(info, sh):
        return sh in names
    return b


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = {}
        self.notes = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.functions = set()
        self.blocks = set()
        self.outcomes = 0
        self.callsites = 0
        self.samples = []
        self.configs = []
        self.extra = {}
        self.t0 = time.time()
        self.db = None
        self._cache = {}

    # ---------------------------------------------------------------- loading
    def load(self, config):
        data, info = extract.extract(config)
        self.db = DB(data)
        self.data = data
        self.config = config
        self._cache = {}
        self.configs.append({'features': 'all' if config == 'all' else 'none', 'bodies': len(data['fns']),
                             'impls': len(data['impls']), 'types': len(data['adts'])})
        return data

    # ---------------------------------------------------------------- anchors
    def trait_fn(self, ty, trait, method, opt=False):
        """body of <ty as trait>::method"""
        for f in self.data['fns']:
            t = f.get('impl_self')
            if f.get('name') == method and t and t['k'] == 'adt' and tyname(t['p']) == ty and f.get('impl_trait') \
                    and tyname(f['impl_trait']) == trait and f['kind'] != 'Closure':
                return f
        if opt:
            return None
        raise Missing('<%s as %s>::%s' % (ty, trait, method))

    def inh(self, ty, method, opt=False):
        for f in self.data['fns']:
            t = f.get('impl_self')
            if f.get('name') == method and t and t['k'] == 'adt' and tyname(t['p']) == ty and not f.get('impl_trait') \
                    and f['kind'] != 'Closure':
                return f
        if opt:
            return None
        raise Missing('%s::%s' % (ty, method))

    def free(self, path, opt=False):
        f = self.db.fns.get(path)
        if f is None and not opt:
            raise Missing(path)
        return f

    def default_fn(self, trait, method):
        for f in self.data['fns']:
            if f.get('name') == method and f.get('in_trait') and tyname(f['in_trait']) == trait:
                return f
        for f in self.data['fns']:
            if f['p'].endswith(trait + '::' + method) and f['kind'] != 'Closure' and not f.get('impl_self'):
                return f
        raise Missing('%s::%s' % (trait, method))

    def adt(self, name):
        for a in self.data['adts']:
            if tyname(a['p']) == name:
                return a
        raise Missing('type ' + name)

    def fields(self, name):
        return [(f[0], f[1]) for f in self.adt(name)['vs'][0]['f']]

    def field_by(self, name, pred, what):
        """the unique field of type `name` whose type satisfies pred"""
        r = [(n, t) for n, t in self.fields(name) if pred(t)]
        if len(r) != 1:
            raise Missing('%s: expected one %s field, found %s' % (name, what, [n for n, _ in r]))
        return r[0][0]

    # ---------------------------------------------------------------- running
    def run(self, fn, barrier=BARRIER, facts=None, overrides=None, args=None, key=None, subst=None, unroll=None, steps=None):
        """list of outcomes, or None when the analysis gives up (recorded as undecided)"""
        ck = None
        if not facts and not overrides and args is None and subst is None:
            ck = (fn['p'], frozenset(barrier))
            if ck in self._cache:
                return self._cache[ck]
        if isinstance(facts, dict):
            facts = [(test(a, s), True) for a, s in facts.items()]
        eng = Engine(self.db, barrier_of(barrier))
        for i, t in enumerate(fn['body']['locals'][1:fn['body']['argc'] + 1] if fn.get('body') else []):
            self.signed_inputs(arg(i), t)
        if overrides:
            eng.overrides.update(overrides)
        eng.unroll_key = unroll
        eng.max_steps = steps
        self.last_engine = eng
        try:
            outs = eng.summarize(fn, args=args, facts=facts, subst=subst)
        except Budget as e:
            if steps is not None:
                return None
            self.undecided.append('%s: analysis budget exceeded (%s)' % (fn['p'], e))
            outs = None
        except RecursionError:
            self.undecided.append('%s: recursion limit' % fn['p'])
            outs = None
        self.functions.add(fn['p'])
        self.functions |= {v[0] if isinstance(v, tuple) else v for v in eng.visited}
        self.blocks |= eng.visited
        self.callsites += eng.callsites
        if outs is not None:
            self.outcomes += len(outs)
        self.last_engine = eng
        if ck:
            self._cache[ck] = outs
        return outs

    def signed_inputs(self, n, t, depth=4):
        """inputs are named alike in every function: what was unsigned in another one need not be here"""
        t = flow.strip_refs(t)
        while flow.is_adt(t, 'Box', 'Arc', 'Rc', 'Mutex', 'RefCell', 'Cell') and t['a']:
            t = flow.strip_refs(t['a'][0])
        p = flow.prim(t)
        if p in flow.INTW and p[0] == 'i':
            unsigned.discard(n)
        elif t and depth and t['k'] == 'adt':
            if flow.is_adt(t, 'Option'):
                self.signed_inputs(mk('f', n, 'Some.0'), t['a'][0], depth - 1)
            elif t['p'] in self.db.adts:
                a = self.db.adts[t['p']]
                for v in a['vs']:
                    for nm, ft, _ in v['f']:
                        self.signed_inputs(mk('f', n, v['n'] + '.' + nm if a['enum'] else nm), ft, depth - 1)
        elif t and depth and t['k'] == 'tuple':
            for i, x in enumerate(t['a']):
                self.signed_inputs(mk('f', n, str(i)), x, depth - 1)

    # ---------------------------------------------------------------- results
    def rule(self, rid, text):
        self.rules.setdefault(rid, {'text': text, 'obligations': 0, 'failed': 0})

    def ob(self, cond, rule, site, msg, fn=None, where=None, detail=None):
        """one obligation; site: stable identification of the construct (no line numbers)"""
        self.obligations += 1
        r = self.rules.setdefault(rule, {'text': '', 'obligations': 0, 'failed': 0})
        r['obligations'] += 1
        if cond:
            self.discharged += 1
            return True
        r['failed'] += 1
        key = '%s|%s' % (rule, site)
        if key not in self.viol:
            loc = where
            if loc is None and fn is not None:
                loc = '%s:%s' % tuple(fn['span'][:2]) if fn.get('span') else ''
            self.viol[key] = {'key': key, 'rule': rule, 'site': site, 'message': msg, 'function': fn['p'] if fn else None,
                              'location': loc, 'detail': (detail or '')[:4000], 'config': self.config}
        return False

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:600])


# -------------------------------------------------------------------- term queries
def IN(name):
    return mk('in', name)


SELF = IN('self')


def F(n, *path):
    for p in path:
        n = proj_get(n, p)
    return n


def arg(i):
    return IN('#%d' % i)


def norm(n, memo=None):
    """identity of a collection / object with loop- and call-induced modifications stripped"""
    def f(x):
        if x.op == 'lvo':
            return norm(x.a[0])
        if x.op == 'lv':
            return norm(x.a[2])
        if x.op == 'rec':
            return norm(x.a[1])
        if x.op == 'post':
            return norm(x.a[-1])
        if x.op == 'upd':
            return norm(x.a[0])
        if x.op == 'app' and x.a[0] == 'rev':
            return norm(x.a[1])
        return None
    return rebuild(n, f)


def truth(o, b):
    """value of boolean term b in this outcome: True/False/None"""
    b = o.eng.simp(o.st, b)
    return True if b is TRUE else False if b is FALSE else None


def variant_of(o, v, adt, db):
    """variant name(s) possible for enum term v"""
    if v.op == 'agg':
        return frozenset((v.a[1],))
    at = mk('disc', v, frozenset(n for n, _ in db.variants(adt)))
    return o.facts.get(at, universe(at))


def is_some(o, v):
    if v.op == 'agg' and v.a[0] == OPT:
        return v.a[1] == 'Some'
    at = mk('disc', v, frozenset(('None', 'Some')))
    s = o.facts.get(at)
    if s is None or len(s) == 2:
        return None
    return 'Some' in s


def calls(n, name=None):
    """call nodes inside term n"""
    out = []

    def f(x):
        if x.op == 'call' and (name is None or x.a[0] == name):
            out.append(x)
    walk(n, f)
    return out


def events(evs, name=None, path=()):
    """flatten: yields (event, path) with path = tuple of (loop node, alternative)"""
    for e in evs:
        if e.op == 'ev':
            if name is None or e.a[0] == name:
                yield e, path
        elif e.op == 'loop':
            for alt in e.a[1]:
                for x in events(alt[1], name, path + ((e, alt),)):
                    yield x


def loops(evs):
    for e in evs:
        if e.op == 'loop':
            yield e
            for alt in e.a[1]:
                for x in loops(alt[1]):
                    yield x


def rec_parts(n):
    """flatten nested recurrences: -> (initial value, [(coll, alternatives)] innermost first)"""
    chain = []
    while n.op == 'rec':
        chain.append((n.a[0], n.a[2]))
        n = n.a[1]
    chain.reverse()
    return n, chain


def linsum(n):
    """decompose an integer term into {(coll or None, term): coefficient}, const.
    Accumulating loops contribute per-element terms. None when not of that shape."""
    out = {}

    def put(k, c):
        out[k] = out.get(k, 0) + c
    const = [0]

    def go(x, coef, coll):
        d, c = lin_of(x)
        if c:
            if coll is None:
                const[0] += coef * c
            else:
                put((coll, kint(1)), coef * c)
        for t, k in d.items():
            if t.op == 'rec':
                if coll is not None and not all(True for _ in ()):
                    return False
                alts = t.a[2]
                if coll is not None:
                    return False
                if not go(t.a[1], coef * k, None):
                    return False
                if not alts:
                    continue
                sums = []
                for facts, val in alts:
                    d2, c2 = lin_of(val)
                    if d2.get(ME) != 1:
                        return False
                    d2 = dict(d2)
                    del d2[ME]
                    sums.append((facts, mk_lin(d2, c2)))
                if len(sums) == 1 and not sums[0][0]:
                    if not go(sums[0][1], coef * k, t.a[0] if t.a[0] is not None else mk('while')):
                        return False
                else:
                    put((t.a[0] if t.a[0] is not None else mk('while'), mk('cases', frozenset(sums))), coef * k)
            else:
                put((coll, t), coef * k)
        return True
    if not go(n, 1, None):
        return None
    return {k: v for k, v in out.items() if v}, const[0]


def fmt_facts(o):
    return '; '.join(sorted('%s ∈ %s' % (show(a.a[0])[:120] if a.op in ('disc', 'int', 'bool') else show(a)[:160], showset(s))
                            for a, s in o.facts.items()))[:1500]


# -------------------------------------------------------------------- slots: what a container holds
class Slot:
    """a place inside a container holding something that must be visited"""

    def __init__(self, recv, guards, coll, label):
        self.recv, self.guards, self.coll, self.label = recv, guards, coll, label


SUBTRAITS = {'PutsSnapshot': ('HandlesObservations', 'ProcessesTelemetryMessages', 'Instrument'), 'Updates': ('Instrument',)}


def holds(db, ty, trait):
    """ty implements the (crate) trait, or is dyn of it"""
    t = unbox(strip_refs(ty))
    if t['k'] == 'dyn':
        return tyname(t['p']) == trait or tyname(t['p']) in SUBTRAITS.get(trait, ())
    if t['k'] == 'adt':
        for tr, lst_ in db.impls.items():
            if tyname(tr) == trait:
                for s, args, items in lst_:
                    if s['k'] == 'adt' and s['p'] == t['p']:
                        return True
    return False


def slots(db, adt_path, trait, node, guards=(), coll=None, label='', depth=0):
    out = []
    a = db.adts.get(adt_path)
    if a is None or a['enum'] or depth > 3:
        return out
    for fld in a['vs'][0]['f']:
        out += _slot(db, fld[1], trait, F(node, fld[0]), guards, coll, (label + '.' + fld[0]).lstrip('.'), depth)
    return out


def _slot(db, ty, trait, node, guards, coll, label, depth):
    t = unbox(strip_refs(ty))
    if holds(db, t, trait):
        return [Slot(node, guards, coll, label)]
    if t['k'] == 'adt':
        nm = tyname(t['p'])
        if nm == 'Option':
            return _slot(db, t['a'][0], trait, proj_get(node, 'Some.0'), guards + (node,), coll, label, depth)
        if nm in ('Vec', 'VecDeque'):
            if coll is not None:
                return []
            return _slot(db, t['a'][0], trait, mk('elem', node), guards, node, label, depth)
        if t['p'] in db.adts:
            return slots(db, t['p'], trait, node, guards, coll, label, depth + 1)
    if t['k'] == 'tuple':
        out = []
        for i, x in enumerate(t['a']):
            out += _slot(db, x, trait, F(node, str(i)), guards, coll, label + '.%d' % i, depth)
        return out
    return []


def deliveries(evs, name):
    """list of (normalised receiver, event, path)"""
    return [(norm(e.a[1]), e, p) for e, p in events(evs, name)]


def facts_some(facts, v):
    """is option term v Some under this fact mapping (True/False/None)"""
    if v.op == 'agg' and v.a[0] == OPT:
        return v.a[1] == 'Some'
    s = facts.get(mk('disc', v, frozenset(('None', 'Some'))))
    if s is None or len(s) == 2:
        return None
    return 'Some' in s


def nfacts(facts):
    """facts with normalised atoms"""
    out = {}
    for a, s in (facts.items() if isinstance(facts, dict) else facts):
        out[remake(a.op, tuple(norm(x) if isinstance(x, N) else x for x in a.a))] = s
    return out


def check_slots(ctx, rule, fn, evs, facts, slotlist, event, args_ok, what, cond='', seen=None):
    """every slot is visited exactly once (each element, for collections) by `event`, with acceptable
    arguments; nothing else is visited."""
    facts = nfacts(facts)
    dl = deliveries(evs, event)
    lp = [l for l in evs if l.op == 'loop']
    used = set()
    for s in slotlist:
        mine = [(r, e, p) for r, e, p in dl if r is s.recv]
        for r, e, p in mine:
            used.add(e)
        gd = [facts_some(facts, g) for g in s.guards]
        site = '%s|%s%s' % (fn['p'], s.label, cond)
        if False in gd:
            continue
        if s.coll is not None:
            ls = [l for l in lp if l.a[0] is not None and norm(l.a[0]) is s.coll and
                  any(norm(e.a[1]) is s.recv for e, _ in events((l,), event))]
            ctx.ob(len(ls) == 1, rule, site + '|loop', '%s: elements of `%s` are %s%s' % (
                what, s.label, 'not visited' if not ls else 'visited %d times' % len(ls), cond), fn)
            for l in ls:
                ctx.ob(l.a[2], rule, site + '|total', '%s: the traversal of `%s` can stop before the last element%s' % (
                    what, s.label, cond), fn)
                for alt in l.a[1]:
                    es = [e for e in alt[1] if e.op == 'ev' and e.a[0] == event and norm(e.a[1]) is s.recv]
                    nested = [e for e, p in events(alt[1], event) if p and norm(e.a[1]) is s.recv]
                    ctx.ob(len(es) == 1 and not nested, rule, site + '|once',
                           '%s: an element of `%s` is visited %d times on some path%s' % (what, s.label, len(es) + len(nested), cond), fn,
                           detail=show_ev(l))
                    for e in es:
                        ctx.ob(args_ok(e), rule, site + '|args', '%s: an element of `%s` gets something else than it must (%s)%s' % (
                            what, s.label, show_ev(e)[:300], cond), fn)
        else:
            top = [e for r, e, p in mine if not p]
            inl = [e for r, e, p in mine if p]
            if None in gd:
                ctx.ob(False, rule, site + '|guard', '%s: whether `%s` is present makes no difference on some path%s' % (
                    what, s.label, cond), fn, detail='\n'.join(show_ev(e) for e in evs)[:2000])
                continue
            ctx.ob(len(top) == 1 and not inl, rule, site + '|once', '%s: `%s` is visited %d times%s' % (
                what, s.label, len(top) + len(inl), cond), fn)
            for e in top:
                ctx.ob(args_ok(e), rule, site + '|args', '%s: `%s` gets something else than it must (%s)%s' % (
                    what, s.label, show_ev(e)[:300], cond), fn)
    for r, e, p in dl:
        if e not in used:
            ctx.ob(False, rule, '%s|extra|%s%s' % (fn['p'], show(r)[:100], cond), '%s: unexpected visit of %s%s' % (
                what, show(r)[:200], cond), fn)


def sum_of_slots(ctx, rule, fn, ret, facts, slotlist, event, what, cond=''):
    """ret == sum of the results of all visits"""
    ls = linsum(ret)
    if ls is None:
        ctx.undecided.append('%s: result %s is not a linear sum' % (fn['p'], show(ret)[:200]))
        return
    terms, c = ls
    facts = nfacts(facts)
    left = dict(terms)
    bad = []
    if c:
        bad.append('constant %s' % c)
    for s in slotlist:
        if False in [facts_some(facts, g) for g in s.guards]:
            continue
        hit = [k for k in left if k[1].op == 'call' and k[1].a[0] == event and norm(k[1].a[2]) is s.recv and
               (k[0] is None) == (s.coll is None)]
        if len(hit) != 1 or left[hit[0]] != 1:
            bad.append('result of `%s` counted %s times' % (s.label, sum(left[h] for h in hit)))
        for h in hit:
            del left[h]
    for k in left:
        bad.append('extra term %s' % show(k[1])[:200])
    ctx.ob(not bad, rule, '%s|sum%s' % (fn['p'], cond), '%s: the returned number is not the sum over everything visited: %s%s' % (
        what, '; '.join(bad[:4]), cond), fn)


def quiet_drops(ctx, rule, *names):
    """values of these types do nothing of their own when they go (one may go at any time, on any thread)"""
    n = 0
    for f in ctx.db.fns.values():
        t = f.get('impl_self')
        if not (f.get('impl_trait') or '').endswith('::Drop') or not t or t['k'] != 'adt' or tyname(t['p']) not in names:
            continue
        n += 1
        for o in ctx.run(f) or ():
            se = [e.a[0] for e, _ in events(o.ev) if e.a[0] not in ('drop', 'lock')]
            ctx.ob(not se, rule, f['p'] + '|effect', 'when a %s goes, it does something of its own: %s' % (tyname(t['p']), ', '.join(se)[:200]), f, detail=o.show())
    return n
