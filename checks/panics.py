"""P22: nothing that is observed, sent, configured or looked up makes the crate panic."""
from instr import *
from spec import *
from processing import lin_fact
import flow

FIND = 'snapshot::find_item'
STEPS = 40000
MAX_CONST = 1 << 62                      # ns: 146 years

# calls into the standard library and dependencies that panic on some arguments
PARTIAL = {'f64::clamp', 'String::remove', 'String::insert', 'String::insert_str', 'str::split_at', 'VecDeque::swap', 'Vec::drain'}

MAXIMA = {'u8': 1 << 8, 'u16': 1 << 16, 'u32': 1 << 32, 'i8': 1 << 7, 'i16': 1 << 15, 'i32': 1 << 31}


def hull(facts):
    for a, s in facts.items():
        if a.op == 'int' and s:
            d, c = lin_of(a.a[0])
            yield d, s[0][0] - c, s[-1][1] - c


class Prover:
    """bounds of integer terms from the facts of a path, the meaning of their parts and the invariants of the objects involved"""

    def __init__(self, invs=(), uns=(), budget=4000):
        self.invs = tuple(invs)              # (vec field, int field or None)
        self.uns = uns                       # lists whose length a loop changes
        self.budget = budget

    def axioms(self, terms, facts, deep):
        """non-negative linear forms (d, c): sum d + c >= 0"""
        out = []
        seen = set()
        todo = list(terms)
        while todo:
            t = todo.pop()
            if t in seen or not isinstance(t, N):
                continue
            seen.add(t)
            if is_unsigned(t):
                out.append(({t: 1}, 0))
            if t.op == 'app' and t.a[0] == 'rem':
                d, c = lin_of(t.a[2])
                if d and all(is_unsigned(x) for x in d):              # operands of one type
                    out.append(({t: 1}, 0))
                if deep > 0 and self.nonneg(add(t.a[2], kint(1), -1), facts, deep - 1):
                    f = dict(d)
                    f[t] = f.get(t, 0) - 1
                    out.append((f, c - 1))
                todo += list(d)
            elif t.op == 'app' and t.a[0] == 'len':
                self.len_axioms(t, out, todo)
            elif t.op == 'app' and t.a[0] in ('min', 'max') and len(t.a) == 3:
                for x in t.a[1:]:
                    d, c = lin_of(add(x, t, -1) if t.a[0] == 'min' else add(t, x, -1))
                    out.append((d, c))
                    todo += [y for y in lin_of(x)[0]]
            elif t.op == 'app' and t.a[0] == 'div' and isint(t.a[2]) and t.a[2].a[1] > 0:
                d, c = lin_of(add(t.a[1], mul(t, t.a[2]), -1))       # x - k*(x/k) in [0, k-1] for x >= 0
                if deep > 0 and self.nonneg(t.a[1], facts, deep - 1):
                    out.append((d, c))
                    out.append(({t: 1}, 0))
                todo += list(lin_of(t.a[1])[0])
            elif t.op == 'app' and t.a[0].startswith('cast:u') and is_unsigned(t.a[1]):
                pass
            elif t.op == 'elem' and t.a[0].op == 'app' and t.a[0].a[0] == 'range':
                d, c = lin_of(add(t, t.a[0].a[1], -1))
                out.append((d, c))
                d, c = lin_of(add(add(t.a[0].a[2], t, -1), kint(1), -1))
                out.append((d, c))
            if t.op == 'f':
                for v, u in self.invs:
                    if u is not None and t.a[1] == u:
                        n = app('len', F(t.a[0], v))
                        out.append(({n: 1, t: -1}, -1))
                        out.append(({t: 1}, 0))
                        todo.append(n)
        for d, lo, hi in hull(facts):
            if lo > -INF:
                out.append((dict(d), -lo))
            if hi < INF:
                out.append(({k: -x for k, x in d.items()}, hi))
        return out

    def len_axioms(self, t, out, todo):
        x = t.a[1]
        if x.op == 'f':
            for v, u in self.invs:
                if x.a[1] == v:
                    out.append(({t: 1}, -1))
        # one entry for each element of a range
        y = x
        if y.op == 'rec' and y.a[1].op == 'list' and y.a[1].a[0] is None and y.a[0] is not None:
            if all(e.op == 'list' and e.a[0].op == 'me' and not f for f, e in y.a[2]):
                k = {len(e.a[1]) for _, e in y.a[2]}
                if k == {1}:
                    g = y.a[0]
                    n = add(g.a[2], g.a[1], -1) if g.op == 'app' and g.a[0] == 'range' else app('len', g)
                    if n.op == 'app' and n.a[0] == 'len':
                        todo.append(n)
                    n = add(n, kint(len(y.a[1].a[1])))
                    d, c = lin_of(add(n, t, -1))
                    out.append((d, c))
                    d, c = lin_of(add(t, n, -1))
                    out.append((d, c))

    def nonneg(self, e, facts, deep=3, splits=2):
        """e >= 0 on this path"""
        if self.nonneg1(e, facts, deep):
            return True
        if splits > 0:                       # one case for each interval of a fact like x != n
            for a, s in facts.items():
                if a.op == 'int' and 1 < len(s) <= 3:
                    cases = [dict(facts) for _ in s]
                    for f, i in zip(cases, s):
                        f[a] = (i,)
                    if all(self.nonneg1(e, f, deep) or self.absurd1(f, a) for f in cases) or \
                            all(self.nonneg(e, f, deep, splits - 1) or self.absurd1(f, a) for f in cases):
                        return True
        return False

    def nonneg1(self, e, facts, deep=3):
        d, c = lin_of(e)
        if not d:
            return c >= 0
        for t in list(d):
            if t.op == 'rec' and deep > 0:
                return self.by_induction(t, e, facts, deep - 1)
            if t.op in ('lvo', 'post', 'upd'):
                return False
        ax = self.axioms(list(d), facts, deep)
        return self.search(d, c, ax, 4)

    def by_induction(self, t, e, facts, deep):
        me = mk('me')
        mes = {x for _, y in t.a[2] for x in [y]}

        def put(x):
            return rebuild(e, lambda y: x if y is t else None)
        if not self.nonneg(put(t.a[1]), facts, deep):
            return False
        me = []
        for _, x in t.a[2]:
            walk(x, lambda y: me.append(y) if y.op == 'me' else None)
        for f, x in t.a[2]:
            fs = dict(facts)
            fs.update(canon_facts(dict(f), self.uns))
            if me:
                h = lin_of(put(me[0]))
                at, s = as_test(cmp_int('ge', put(me[0]), kint(0)))
                if at.op == 'int':
                    old = fs.get(at, ((-INF, INF),))
                    fs[at] = tuple((max(a, x), min(b, y)) for a, b in old for x, y in s if max(a, x) <= min(b, y))
                    if not fs[at]:
                        continue                    # never happens
            if not self.nonneg(put(x), fs, deep):
                return False
        return True

    def search(self, d, c, ax, n):
        if not d:
            return c >= 0
        if all(k > 0 and is_unsigned(t) for t, k in d.items()) and c >= 0:
            return True
        if n == 0:
            return False
        self.budget -= 1
        if self.budget < 0:
            return False
        for f, k in ax:
            # e = m*f + rest, chosen so that some term disappears
            for t, x in f.items():
                y = d.get(t)
                if y is None or x == 0 or y % x or y // x <= 0:
                    continue
                m = y // x
                r = dict(d)
                for u, z in f.items():
                    r[u] = r.get(u, 0) - m * z
                    if not r[u]:
                        del r[u]
                if len(r) > len(d) + 1:
                    continue
                if self.search(r, c - m * k, ax, n - 1):
                    return True
                break
        return False

    def absurd(self, facts):
        """can this path not be taken"""
        return any(self.absurd1(facts, a) for a, s in facts.items() if a.op == 'int' and s)

    def absurd1(self, facts, a):
        d, c = lin_of(a.a[0])
        lo, hi = facts[a][0][0] - c, facts[a][-1][1] - c
        e = mk_lin(d, 0)
        rest = {b: s for b, s in facts.items() if not (b.op == 'int' and lin_of(b.a[0])[0] == d)}
        return hi < INF and self.nonneg1(add(e, kint(hi + 1), -1), rest) or lo > -INF and self.nonneg1(add(kint(lo - 1), e, -1), rest)


# ------------------------------------------------------------ lengths
def keeps_length(x):
    """is x (a step of a loop over ME) as long as ME"""
    while x.op == 'upd' and all(isinstance(k, tuple) and k and k[0] == '[]' for k in upd_keys(x)):
        x = x.a[0]
    return x.op == 'me'


def upd_keys(x):
    ks = []
    for y in x.a[1]:
        ks.append(y[0] if isinstance(y, tuple) else y)
    return ks


def base(v, unstable):
    """a list as long as v"""
    while True:
        if v.op == 'upd' and all(isinstance(k, tuple) and k and k[0] == '[]' for k in upd_keys(v)):
            v = v.a[0]
        elif v.op == 'rec' and all(keeps_length(y) for _, y in v.a[2]):
            v = v.a[1]
        elif v.op == 'lvo' and v.a[0] not in unstable:
            v = v.a[0]
        elif v.op == 'lv' and v.a[2] not in unstable:
            v = v.a[2]
        else:
            return v


def canon(t, unstable):
    def f(x):
        if x.op == 'app' and x.a[0] == 'len':
            b = base(x.a[1], unstable)
            if b is not x.a[1]:
                b = canon(b, unstable)
                n = app('len', b)
                if b.op == 'list':
                    n = kint(len(b.a[1])) if b.a[0] is None else add(canon(app('len', b.a[0]), unstable), kint(len(b.a[1])))
                return n
        return None
    return rebuild(t, f)


def canon_facts(facts, unstable):
    out = {}
    for a, s in facts.items():
        if a.op == 'int':
            t = canon(a.a[0], unstable)
            if t is not a.a[0]:
                d, c = lin_of(t)
                if not d:
                    continue
                a = mk('int', t)
                if a in out:
                    s = ((max(out[a][0][0], s[0][0]), min(out[a][-1][1], s[-1][1])),)
        out[a] = s
    return out


def unstable_of(outs):
    """lists a loop changes the length of"""
    bad = set()

    def f(x):
        if x.op == 'rec' and not all(keeps_length(y) for _, y in x.a[2]):
            bad.add(x.a[1])
    for o in outs:
        walk(o.ret, f)
        for v in o.st.store.values():
            if isinstance(v, N):
                walk(v, f)
    return bad


# ------------------------------------------------------------ invariants
def candidates(ctx):
    """{type path: [(list field, index field or None)]}"""
    out = {}
    for p, a in ctx.db.adts.items():
        if a.get('enum') or len(a.get('vs', [])) != 1:
            continue
        vs, us = [], []
        for n, t, *_ in a['vs'][0]['f']:
            t = t['t'] if t.get('k') == 'ref' else t
            if flow.is_adt(t, 'Vec'):
                vs.append(n)
            elif flow.prim(t) == 'usize':
                us.append(n)
        if vs and us:
            out[p] = [(v, u) for v in vs for u in us] + [(v, None) for v in vs]
    return out


def objects(t, p, acc):
    """objects of type p built in t"""
    def f(x):
        if x.op == 'agg' and x.a[0] == p and not any(x is y for y in acc):
            acc.append(x)
    walk(t, f)


def strip_ref(t):
    while t.get('k') == 'ref':
        t = t['t']
    return t


def of_file(ctx, p):
    a = ctx.db.adts[p]
    return [f for q, f in sorted(ctx.db.fns.items()) if f['kind'] in ('AssocFn', 'Fn') and f['span'][0] == a['span'][0] and 'fmt::' not in (f.get('impl_trait') or '')]


def invariants(ctx):
    """[(list field, index field or None)]: the index is within the list, the list is not empty, for every object of the crate at any time.
    Assumed for all objects before a function of the file of the type (its fields are private) and shown for those it changes or builds; those
    that can not be shown are left out until none is left out"""
    cand = candidates(ctx)
    cand = {p: [c for c in cs] for p, cs in cand.items() if all(not f[2] for f in ctx.db.adts[p]['vs'][0]['f'] if len(f) > 2)}
    runs = {}
    for p in cand:
        runs[p] = []
        for fn in of_file(ctx, p):
            outs = ctx.run(fn)
            if outs is None:
                cand[p] = []
                continue
            runs[p].append((fn, outs, unstable_of(outs)))
    n = 0
    unsure = set()
    while True:
        invs = {c for cs in cand.values() for c in cs}
        dropped = False
        n = 0
        for p, cs in cand.items():
            for fn, outs, uns in runs[p]:
                ins = fn['body']['locals'][1:1 + fn['body']['argc']]
                for o in outs:
                    objs = []
                    objects(o.ret, p, objs)
                    for e in o.ev:
                        objects(e, p, objs)
                    for i, t in enumerate(ins):
                        if t.get('k') == 'ref' and t.get('m') and strip_ref(t).get('p') == p:
                            a = o.args_in[i] if hasattr(o, 'args_in') else SELF if i == 0 and first_self(fn) else arg(i if first_self(fn) else i + 1)
                            objs.append(o.final(a))
                    facts = canon_facts(o.facts, uns)
                    for x in objs:
                        for c in list(cs):
                            n += 1
                            if not holds(ctx, x, c, facts, uns, invs):
                                cs.remove(c)
                                if any(carried(F(x, q)) for q in c if q is not None):
                                    unsure.add(c)
                                dropped = True
        if not dropped:
            break
    return [(p, v, u) for p, cs in cand.items() for v, u in cs], unsure


def first_self(fn):
    return any(n == 'self' and q['l'] == 1 and not q['p'] for n, q in fn['body']['names'])


def holds(ctx, x, c, facts, uns, invs):
    v, u = c
    n = canon(app('len', F(x, v)), uns)
    if n.op == 'app' and n.a[0] == 'len' and n.a[1].op == 'list':
        y = n.a[1]
        n = kint(len(y.a[1])) if y.a[0] is None else add(app('len', y.a[0]), kint(len(y.a[1])))
    p = Prover(invs, uns)
    if u is None:
        return p.nonneg(add(n, kint(1), -1), facts)
    return p.nonneg(add(add(n, canon(F(x, u), uns), -1), kint(1), -1), facts)


# ------------------------------------------------------------ the check
def entries(ctx):
    """public functions first, then what none of them leads to, callers before callees"""
    fns = [f for _, f in sorted(ctx.db.fns.items()) if f['kind'] in ('AssocFn', 'Fn') and 'fmt::' not in (f.get('impl_trait') or '')]
    return [f for f in fns if f.get('pub')], [f for f in fns if not f.get('pub')]


def callees(db, fn):
    out = set()
    for b in fn['body']['blocks']:
        t = b['t']
        if t[0] == 'call' and 'p' in t[1]:
            out.add(t[1].get('r') or t[1]['p'])
    pre = fn['p'] + '::{closure'
    for q, f in db.fns.items():
        if q.startswith(pre):
            out |= callees_(f)
    return out


def callees_(fn):
    return {t[1].get('r') or t[1]['p'] for b in fn['body']['blocks'] for t in (b['t'],) if t[0] == 'call' and 'p' in t[1]}


def p22(ctx):
    ctx.rule('explicit', 'no panic, unwrap or expect is reached')
    ctx.rule('index', 'every index and range is within the list')
    ctx.rule('number', 'no division by zero, no unsigned subtraction below zero')
    ctx.rule('time', 'no point in time or duration is computed that may not be representable')
    ctx.rule('partial', 'functions of other crates that panic on some arguments get others')
    ctx.rule('invariant', 'what the above relies on is established by every constructor and kept by every function with access')
    ctx.rule('again', 'no function calls itself with what it was called with')
    invs, unsure = invariants(ctx)
    for p, v, u in invs:
        ctx.ob(True, 'invariant', '%s|%s|%s' % (p, v, u), '', None)
    pairs = {(v, u) for _, v, u in invs}
    B = set(BARRIER) | {FIND}
    pub, rest = entries(ctx)
    seen = set()

    def go(fn):
        outs = ctx.run(fn, barrier=B, key='panics', steps=STEPS)
        if outs is None:                              # too much in one go: what it calls is looked at on its own
            outs = ctx.run(fn, barrier=B | {flow.short(q) for q in callees(ctx.db, fn) if q in ctx.db.fns}, key='panics')
        eng = ctx.last_engine
        seen.update(v[0] if isinstance(v, tuple) else v for v in eng.visited)
        seen.add(fn['p'])
        if outs is None:
            return
        judge(ctx, fn, outs, eng, pairs, unsure)
    for fn in pub:
        go(fn)
    left = [f for f in rest if f['p'] not in seen]
    while left:
        called = set()
        for f in left:
            called |= {q for q in callees(ctx.db, f) if q != f['p']}
        roots = [f for f in left if f['p'] not in called] or left[:1]
        for f in roots:
            if f['p'] not in seen:
                go(f)
        left = [f for f in left if f['p'] not in seen]
    for q, f in sorted(ctx.db.fns.items()):
        if f['kind'] == 'Closure' and q not in seen and f['p'] not in seen and '{closure' not in q[:q.rindex('::{closure')]:
            go(f)


def judge(ctx, fn, outs, eng, pairs, unsure):
    uns = unstable_of(outs)
    done = set()
    for kind, where, span, facts, cond, ops in eng.panics:
        key = (kind, where, frozenset(facts.items()), ops)
        if key in done:
            continue
        done.add(key)
        facts = canon_facts(facts, uns)
        ops = [canon(x, uns) for x in ops]
        verdict, rule, msg = decide(ctx, kind, facts, cond, ops, Prover(pairs, uns), uns)
        site = '%s|%s' % (where, kind)
        if verdict is None:
            ctx.undecided.append('%s: %s' % (site, msg))
            continue
        if verdict is False and Prover(pairs, uns).absurd(facts):
            verdict = True
        if verdict is False and unsure and decide(ctx, kind, facts, cond, ops, Prover(pairs | unsure, uns), uns)[0]:
            ctx.undecided.append('%s: %s (a loop changes the index)' % (site, msg))
            continue
        ctx.ob(verdict, rule, site, msg + (' (called from %s)' % fn['p'] if fn['p'] != where else ''), ctx.db.fns.get(where) or fn,
               detail='; '.join('%s in %s' % (show(a)[:100], s) for a, s in list(facts.items())[:12]))
    for o in outs:
        for e in o.ev:
            walk(e, lambda x: partial(ctx, fn, o, x, done) if x.op == 'ev' else None)


def carried(t):
    """is t something a loop changes in a way that is not understood"""
    return mentions(t, lambda x: x.op in ('lv', 'lvo', 'me') or x.op == 'rec' and any(f for f, _ in x.a[2]))


def ge0(p, e, facts):
    return p.nonneg(e, facts)


def decide(ctx, kind, facts, cond, ops, p, uns=()):
    """(fine: True, possible panic: False, not decided: None), rule, message"""
    if any(a.op == 'bool' and a.a[0].op == 'app' and a.a[0].a[0] == 'poisoned' and True in s for a, s in facts.items()):
        return True, 'explicit', ''                                          # no other thread panicked with the lock held, by this very property
    if kind in ('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err'):
        x = ops[0]
        if mentions(x, lambda t: t.op == 'call' and t.a[0].endswith(('Builder::spawn', 'thread::spawn'))):
            return True, 'explicit', ''                                      # the system refuses a thread
        return False, 'explicit', '%s may be called on %s' % (kind, show(x)[:120])
    if kind.startswith('call '):
        return False, 'explicit', '%s may be reached' % kind[5:]
    if kind in ('index', 'bounds'):
        n, i = ops[0], ops[1]
        good = ge0(p, add(add(n, i, -1), kint(1), -1), facts)
        if not good and carried(i):
            good = None
        return good, 'index', 'the index %s may be beyond the %s elements' % (show(i)[:80], show(n)[:80])
    if kind == 'range':
        return in_range(p, facts, *ops)
    if kind == 'usub':
        if any(carried(x) or mentions(x, lambda y: y.op == 'rec') for x in ops) and not ge0(p, add(ops[0], ops[1], -1), facts):
            return None, 'number', 'not decided whether %s - %s is below zero' % (show(ops[0])[:80], show(ops[1])[:80])
        return ge0(p, add(ops[0], ops[1], -1), facts), 'number', '%s - %s may be below zero' % (show(ops[0])[:80], show(ops[1])[:80])
    if kind in ('divzero', 'remzero'):
        if len(ops) == 2:
            d = ops[1]
            good = isint(d) and d.a[1] != 0 or ge0(p, add(d, kint(1), -1), facts)
            return good or (None if mentions(d, lambda y: y.op in ('lv', 'lvo', 'me', 'rec')) else False), 'number', 'the divisor %s may be zero' % show(d)[:80]
        if cond is not None:
            at, s = as_test(cond[0])
            if at.op == 'int':
                d = canon(at.a[0], uns)
                good = ge0(p, add(d, kint(1), -1), facts) or ge0(p, add(kint(-1), d, -1), facts)
                return good or (None if mentions(d, lambda y: y.op in ('lv', 'lvo', 'me', 'rec')) else False), 'number', 'the divisor %s may be zero' % show(d)[:80]
        return False, 'number', 'the divisor of %s may be zero' % show(ops[0])[:80]
    if kind.startswith('need Duration::'):
        return seconds(facts, kind[5:], ops)
    if kind.startswith('need '):
        if all(ge0(p, x, facts) for x in ops):
            return True, 'partial', ''
        if any(carried(x) or mentions(x, lambda y: y.op == 'rec') for x in ops):
            return None, 'partial', 'whether the arguments of %s make it panic' % kind[5:]
        return False, 'partial', '%s may be called with something it panics on: %s may be negative' % (kind[5:], ', '.join(show(x)[:80] for x in ops))
    if kind.startswith('narrow '):
        _, op, ty = kind.split()
        top = kint(MAXIMA[ty] - 1)
        e = add(*ops) if op == 'add' else mul(*ops)
        if ge0(p, add(top, e, -1), facts) and (ty[0] == 'u' or ge0(p, add(top, e), facts)):
            return True, 'number', ''
        if not all(isint(x) or given(x) for x in ops):
            return None, 'number', 'whether the %s of %s and %s fits' % (op, show(ops[0])[:80], show(ops[1])[:80])
        return False, 'number', 'the %s of %s and %s may be beyond what %s can hold' % ('sum' if op == 'add' else 'product', show(ops[0])[:80], show(ops[1])[:80], ty)
    if kind.startswith('time '):
        return in_time_range(p, facts, kind, ops)
    return True, 'explicit', ''


def given(t):
    """is t something a caller may choose"""
    d, c = lin_of(t)
    return bool(d) and all(x.op in ('in', 'f', 'arg', 'self', 'vf') for x in d)


def seconds(facts, name, ops):
    """a duration made of a float: it must neither be negative nor too large nor not a number"""
    x = ops[-1]
    if x.op == 'k' and x.a[0] == 'float':
        v = float(x.a[1])
        if name.startswith('Duration::from') and 0.0 <= v < 1e19 or 0.0 <= v <= 1.0 and name.startswith('Duration::mul') or v >= 1.0 and name.startswith('Duration::div'):
            return True, 'partial', ''
    if any(mentions(a, lambda y: y is x) for a in facts):
        return None, 'partial', 'whether %s makes %s panic' % (show(x)[:80], name)
    return False, 'partial', '%s may be given %s, which may be negative, too large or not a number' % (name, show(x)[:80])


def in_range(p, facts, n, r, v):
    if r.op != 'agg' or not tyname(str(r.a[0])).startswith('Range'):
        if v.op == 'call' or v.op == 'in' or True:
            return True, 'index', ''                                          # not a list (JSON objects insert what is missing)
    f = dict(r.a[2])
    ty = tyname(r.a[0])
    lo = f.get('start', kint(0))
    hi = f.get('end')
    if ty == 'RangeFull':
        return True, 'index', ''
    if hi is None:
        hi = n
    elif 'Inclusive' in ty:
        hi = add(hi, kint(1))
    good = ge0(p, add(n, hi, -1), facts) and ge0(p, add(hi, lo, -1), facts)
    return good, 'index', 'the range %s may be beyond the %s elements' % (show(r)[:80], show(n)[:80])


def small(t):
    """a duration that is a constant or a difference of clock readings, so that adding it to a reading gives a time"""
    if isint(t):
        return abs(t.a[1]) <= MAX_CONST
    d, c = lin_of(t)
    if abs(c) > MAX_CONST:
        return False
    rest = {}
    for x, k in d.items():
        if x.op == 'app' and x.a[0] == 'div' and isint(x.a[2]) and x.a[2].a[1] >= abs(k) and small(x.a[1]):
            continue
        if x.op == 'app' and x.a[0] in ('rem', 'min') and (small(x.a[1]) or small(x.a[2])):
            continue
        rest[x] = k
    if not rest:
        return True
    return sum(rest.values()) == 0 and all(abs(k) == 1 for k in rest.values()) and len(rest) == 2


def in_time_range(p, facts, kind, ops):
    _, ty, op, t1 = kind.split()
    a, b = ops
    if ty == 'Instant' and t1 == 'Instant':
        return True, 'time', ''                                               # saturates
    if op in ('add', 'sub') and ty == 'Instant':
        return small(b), 'time', 'a point in time %s %s may not be representable' % ('plus' if op == 'add' else 'minus', show(b)[:100])
    if op == 'sub':
        return ge0(p, add(a, b, -1), facts), 'time', 'the duration %s - %s may be below zero' % (show(a)[:80], show(b)[:80])
    if op == 'add':
        return small(a) and small(b), 'time', 'the sum of the durations %s and %s may not be representable' % (show(a)[:80], show(b)[:80])
    if op == 'mul':
        return isint(a) and isint(b) or small(a) and isint(b) and b.a[1] < 1000 or small(b) and isint(a) and a.a[1] < 1000, 'time', 'the duration %s times %s may not be representable' % (show(a)[:80], show(b)[:80])
    if op == 'div':
        return isint(b) and b.a[1] != 0 or ge0(p, add(b, kint(1), -1), facts), 'time', 'the divisor %s may be zero' % show(b)[:80]
    return None, 'time', 'arithmetic on times of an unknown kind: %s' % kind


def partial(ctx, fn, o, e, done):
    name = e.a[0]
    if name == flow.short(fn['p']) and fn['kind'] in ('Fn', 'AssocFn') and ('again', e) not in done:
        done.add(('again', e))
        me = [SELF] * first_self(fn) + [arg(i + 1) for i in range(fn['body']['argc'] - first_self(fn))]
        got = ([e.a[1]] if e.a[1] is not UNIT else []) + list(e.a[2])
        def same(x):                                          # trimming ends after the first time
            while x.op == 'app' and x.a[0].split('::')[-1].startswith('trim') or x.op == 'call' and x.a[0].split('::')[-1].startswith('trim'):
                x = x.a[1]
            return x
        got = [same(x) for x in got]
        ctx.ob(not (got == me), 'again', '%s|again' % fn['p'], '%s calls itself with what it was called with, without end' % name, fn)
    if name in PARTIAL and (name, e) not in done:
        done.add((name, e))
        ctx.undecided.append('%s: whether the arguments of %s make it panic' % (fn['p'], name))
    if name.endswith('Snapshot::value') and len(e.a[2]) >= 1:
        q = e.a[2][-1]
        q = float(q.a[1]) if isinstance(q, N) and q.op == 'k' else None
        if q is None:
            ctx.undecided.append('%s: quantile %s' % (fn['p'], show(e)[:100]))
        else:
            ctx.ob(0.0 <= q <= 1.0, 'partial', '%s|%s' % (fn['p'], name), 'the quantile %s is not one' % q, fn)
