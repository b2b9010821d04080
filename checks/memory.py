"""What observing and taking snapshots leaves behind: nothing that grows."""
from spec import *
from waiting import Graph, calls_of, target, line, cyclic, succ

LISTS = ('Vec', 'VecDeque', 'String', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'LinkedList', 'BinaryHeap', 'OsString', 'SmallVec')
GROW = {'push', 'push_back', 'push_front', 'push_str', 'extend', 'extend_from_slice', 'extend_from_within', 'insert', 'insert_str', 'append', 'resize', 'resize_with',
        'entry', 'write_str', 'write_fmt', 'write_char', 'add_assign', 'push_within_capacity', 'get_or_insert_with'}
SHRINK = {'pop', 'pop_front', 'pop_back', 'truncate', 'clear', 'drain', 'remove', 'remove_entry', 'swap_remove', 'retain', 'retain_mut', 'split_off', 'take', 'replace', 'swap',
          'dedup', 'dedup_by', 'dedup_by_key', 'pop_first', 'pop_last', 'len', 'capacity', 'is_full', 'is_empty'}
LEAK = ('mem::forget', 'Box::leak', 'Box::into_raw', 'Vec::leak', 'String::leak', 'ManuallyDrop::new', 'Arc::into_raw', 'Rc::into_raw', 'Arc::increment_strong_count')
ENTRY = {'update': 'Updates', 'handle_observation': 'HandlesObservations', 'put_snapshot': 'PutsSnapshot', 'process': 'ProcessesTelemetryMessages'}
BORROWS = ('MutexGuard', 'RwLockWriteGuard', 'RwLockReadGuard', 'RefMut', 'Ref', 'IterMut', 'Entry', 'OccupiedEntry', 'VacantEntry', 'ReentrantMutexGuard')


def strip(t):
    while t and t['k'] == 'ref' or t and t['k'] == 'adt' and tyname(t['p']) in ('Box', 'Arc', 'Rc', 'Mutex', 'RefCell', 'RwLock', 'Option', 'Pin') and t.get('a'):
        t = t['t'] if t['k'] == 'ref' else t['a'][0]
    return t


def bare(t):
    while t and t['k'] == 'ref':
        t = t['t']
    return t


def container(t):
    t = bare(t)
    return t if t and t['k'] == 'adt' and tyname(t['p']) in LISTS else None


def tstr(t):
    if not t:
        return '?'
    if t['k'] == 'adt':
        a = [tstr(x) for x in t.get('a') or () if not (x and x['k'] == 'adt' and tyname(x['p']) in ('Global', 'RandomState'))]
        return tyname(t['p']) + ('<%s>' % ', '.join(a) if a else '')
    if t['k'] == 'tuple':
        return '(%s)' % ', '.join(tstr(x) for x in t['a'])
    if t['k'] == 'ref':
        return '&' + tstr(t['t'])
    return str(t.get('s') or t.get('p') or t['k'])


def borrows(t):
    """whether a value of this type may lead to something it does not own"""
    if not t:
        return False
    if t['k'] == 'ref' or t['k'] == 'ptr':
        return True
    if t['k'] == 'adt':
        return tyname(t['p']) in BORROWS or any(borrows(x) for x in t.get('a') or ())
    if t['k'] == 'tuple':
        return any(borrows(x) for x in t['a'])
    return t['k'] == 'closure' and any(borrows(x) for x in t.get('u') or ())


class Origins:
    """where the thing a place leads to belongs: 'own' (a value of the function), ('param', k) or 'state' (something that outlives the call)"""

    def __init__(self, db):
        self.db = db
        self.made = {}
        for q, f in db.fns.items():
            for b in (f.get('body') or {}).get('blocks', ()):
                for s in b['s']:
                    if s[0] == '=' and isinstance(s[2], list) and s[2][0] == 'agg' and isinstance(s[2][1], dict) and s[2][1].get('k') == 'closure':
                        self.made[s[2][1].get('p')] = (f, s[2][1].get('ops') or [])
        self.defs = {}

    def defs_of(self, f):
        if f['p'] not in self.defs:
            d = {}
            for b in f['body']['blocks']:
                for s in b['s']:
                    if s[0] == '=' and not s[1]['p']:
                        d.setdefault(s[1]['l'], []).append(('rv', s[2]))
                t = b.get('t')
                if t and t[0] == 'call' and isinstance(t[3], dict) and not t[3]['p']:
                    d.setdefault(t[3]['l'], []).append(('call', t))
            self.defs[f['p']] = d
        return self.defs[f['p']]

    def operand(self, f, op, seen):
        if isinstance(op, list) and op and op[0] in ('mv', 'cp'):
            return self.place(f, op[1], seen)
        if isinstance(op, list) and op and op[0] == 'k' and isinstance(op[1], dict):
            t = strip(op[1].get('ty'))
            # a constant reference: to a static when what it leads to can change
            if op[1].get('static') or borrows(op[1].get('ty')) and t and t['k'] == 'adt' and (tyname(t['p']) in LISTS or t['p'] in self.db.adts):
                return {'state'}
        return set()

    def place(self, f, pl, seen=frozenset()):
        l, proj = pl['l'], pl['p']
        t = f['body']['locals'][l]
        if (f['p'], l) in seen:
            return set()
        seen = seen | {(f['p'], l)}
        if 1 <= l <= f['body']['argc']:
            if f['kind'] == 'Closure':
                if l == 1:
                    mk_ = self.made.get(f['p'])
                    ix = next((x[1] for x in proj if x[0] == 'f'), None)
                    if mk_ and ix is not None and str(ix).isdigit() and int(ix) < len(mk_[1]):
                        return self.operand(mk_[0], mk_[1][int(ix)], seen)
                return {'state'}
            if not borrows(t):
                return {'own'}
            b = bare(t)
            if container(t) or b and (b['k'] in ('param', 'dyn') or b['k'] == 'adt' and tyname(b['p']) in ('Snapshot', 'Formatter')):
                return {('param', l)}
            return {'state'}
        if not borrows(t):
            if t and t['k'] == 'adt' and tyname(t['p']) in ('Arc', 'Rc', 'LocalKey') and any(x[0] == '*' for x in proj):
                return {'state'}
            return {'own'}
        out = set()
        for k, d in self.defs_of(f).get(l, ()):
            if k == 'call':
                for a in d[2]:
                    if isinstance(a, list) and a and (a[0] == 'k' or a[0] in ('mv', 'cp') and borrows(f['body']['locals'][a[1]['l']]) or a[0] in ('mv', 'cp') and a[1]['p']):
                        out |= self.operand(f, a, seen)
            elif isinstance(d, list) and d[0] in ('ref', 'addr', 'rawref', 'rawptr'):
                out |= self.place(f, next(x for x in d if isinstance(x, dict) and 'l' in x), seen)
            elif isinstance(d, list) and d[0] in ('use', 'cast', 'copyderef', 'reborrow'):
                for x in d[1:]:
                    if isinstance(x, list):
                        out |= self.operand(f, x, seen)
                    elif isinstance(x, dict) and 'l' in x:
                        out |= self.place(f, x, seen)
            elif isinstance(d, list) and d[0] == 'agg':
                for x in d[1].get('ops') or ():
                    if x[0] in ('mv', 'cp') and borrows(f['body']['locals'][x[1]['l']]):
                        out |= self.operand(f, x, seen)
        return out or {'own'}


def components(ctx):
    return {f['impl_self']['p'] for f in ctx.db.fns.values() if f.get('impl_trait') and tyname(f['impl_trait']) in ('PutsSnapshot', 'HandlesObservations', 'ProcessesTelemetryMessages')
            and f.get('impl_self') and f['impl_self']['k'] == 'adt'}


def is_component(t, comps):
    t = strip(t)
    return bool(t) and (t['k'] == 'dyn' or t['k'] == 'adt' and t['p'] in comps)


def p34(ctx):
    ctx.rule('grow', 'no observation, run or snapshot puts anything on a collection that outlives it, except a component it was told to add')
    ctx.rule('leak', 'nothing is given up without being freed')
    ctx.rule('round', 'the worker keeps nothing from round to round but its components')
    db = ctx.db
    g, og = Graph(db), Origins(db)
    comps = components(ctx)
    roots = {}
    for q, f in db.fns.items():
        if not f.get('body') or f['kind'] == 'Closure':
            continue
        tr = tyname(f.get('impl_trait') or f.get('in_trait') or '')
        t = f.get('impl_self')
        if ENTRY.get(f.get('name')) == tr or tr == 'TransmitsTelemetryData':
            roots[q] = f['name']
        elif t and t['k'] == 'adt' and tyname(t['p']) in ('TelemetryDriver', 'TelemetryTransmitter') and f['body']['argc'] and bare(f['body']['locals'][1]) is not f['body']['locals'][1]:
            roots[q] = f['name']
    for q, by, _ in g.threads:
        roots[q] = 'the worker'
    reach, why, todo = set(), {}, list(roots)
    for q in roots:
        why[q] = q
    while todo:
        q = todo.pop()
        if q in reach or q not in db.fns or not db.fns[q].get('body'):
            continue
        reach.add(q)
        for r in g.edges.get(q, ()):
            why.setdefault(r, why[q])
            todo.append(r)
    # growing calls, and functions which make grow what they are given
    sites = []                                                        # (fn, container type, origins, line, block, root local)
    for q in sorted(db.fns):
        f = db.fns[q]
        if not f.get('body'):
            continue
        for i, t in calls_of(f):
            m = target(t[1]).split('::')[-1]
            c = container(t[7][0]) if len(t) > 7 and t[7] else None
            if m in GROW and c and t[2]:
                sites.append((q, c, og.operand(f, t[2][0], frozenset()) or {'own'}, line(t), i, t[2][0]))
    grows = {}
    while True:
        new = False
        for q, c, os_, l, i, a in sites:
            for o in os_:
                if type(o) is tuple and (o[1], tstr(c)) not in grows.setdefault(q, {}):
                    grows[q][(o[1], tstr(c))] = c
                    new = True
        if not new:
            break
        have = {(s[0], tstr(s[1]), s[4]) for s in sites}
        for q in sorted(db.fns):
            f = db.fns[q]
            for i, t in calls_of(f) if f.get('body') else ():
                for (k, cs), c in grows.get(target(t[1]), {}).items():
                    if k - 1 < len(t[2]) and (q, cs, i) not in have:
                        sites.append((q, c, og.operand(f, t[2][k - 1], frozenset()) or {'own'}, line(t), i, t[2][k - 1]))
                        have.add((q, cs, i))
    n = 0
    for q, c, os_, l, i, a in sites:
        if q not in reach:
            continue
        n += 1
        f = db.fns[q]
        el = (c.get('a') or [None])[0]
        ok_ = 'state' not in os_ or is_component(el, comps)
        if not ok_:
            other = sorted({target(t[1]).split('::')[-1] for _, t in calls_of(f) if len(t) > 7 and t[7] and container(t[7][0]) and tstr(container(t[7][0])) == tstr(c)} & SHRINK)
            other += [x for x in ('mem::take', 'mem::replace', 'mem::swap') if any(target(t[1]).endswith(x) for _, t in calls_of(f))]
            if other:
                ctx.undecided.append('%s: a %s is added to, and looked at or emptied as well (%s)' % (q, tstr(c), ', '.join(other)))
                continue
        ctx.ob(ok_, 'grow', '%s|%s' % (q, tstr(c)), 'a %s that outlives the call is added to (%s) by what is run for every %s, and nothing there ever bounds it' % (
            tstr(c), l, roots[why[q]].replace('_', ' ')), f)
        # what belongs to a function that goes on for ever is there for ever
        if ok_ and 'own' in os_ and not is_component(el, comps) and any(target(t[1]).endswith('thread::sleep') or target(t[1]).endswith('sleep') for _, t in calls_of(f)):
            root = root_of(f, og, a)
            born = [j for j, b in enumerate(f['body']['blocks']) for s in b['s'] if s[0] == '=' and s[1]['l'] == root and not s[1]['p']] + \
                   [j for j, b in enumerate(f['body']['blocks']) if b.get('t') and b['t'][0] == 'call' and isinstance(b['t'][3], dict) and b['t'][3]['l'] == root and not b['t'][3]['p']]
            for comp in cyclic(f):
                if i in comp and root is not None and born and not any(j in comp for j in born):
                    ms = {target(t[1]).split('::')[-1] for _, t in calls_of(f) if len(t) > 7 and t[7] and container(t[7][0]) and tstr(container(t[7][0])) == tstr(c)}
                    if ms & SHRINK:
                        ctx.undecided.append('%s: a %s is added to round by round, and looked at or emptied as well' % (q, tstr(c)))
                    else:
                        ctx.ob(False, 'round', '%s|%s' % (q, tstr(c)), 'the worker adds to a %s round by round (%s)' % (tstr(c), l), f)
    for q in sorted(reach):
        f = db.fns[q]
        bad = [(short(target(t[1])), line(t)) for _, t in calls_of(f) if any(short(target(t[1])).endswith(x.split('::')[-1]) and x.split('::')[0] in target(t[1]) for x in LEAK)]
        ctx.ob(not bad, 'leak', q, 'what is run for every %s gives memory up without freeing it: %s' % (roots[why[q]], bad), f)
    for q in sorted(roots):
        f = db.fns[q]
        t = f.get('impl_self')
        if f.get('name') not in ('update', 'handle_observation') or not t or t['k'] != 'adt' or t['p'] not in db.adts or db.adts[t['p']].get('enum'):
            continue
        chains = [(nm, ft) for nm, ft, *_ in db.adts[t['p']]['vs'][0]['f'] if heap(ft)]
        if not chains:
            continue
        for o in ctx.run(f) or ():
            fin = o.final(SELF)
            for nm, ft in chains:
                old, v = F(SELF, nm), F(fin, nm)
                longer = v is not old and v.op in ('agg', 'app', 'str', 'list') and any(mentions(v, lambda x, b=b: x is b) for b in (old, F(old, 'Some.0')))
                ctx.ob(not longer, 'grow', '%s|%s' % (q, nm), 'every %s makes `%s` longer: %s' % (f['name'].replace('_', ' '), nm, show(v)[:150]), f, detail=o.show())
    ctx.ob(len(roots) >= 40, 'grow', 'entries', 'only %d functions are run for observations and snapshots' % len(roots))
    ctx.ob(n >= 40, 'grow', 'sites', 'only %d places are found where something is added to a collection' % n)
    ctx.extra['entries'] = len(roots)
    ctx.extra['reachable'] = len(reach)
    ctx.extra['growing calls'] = n
    for q in sorted(reach):
        ctx.functions.add(q)
        ctx.blocks.update((q, i) for i in range(len(db.fns[q]['body']['blocks'])))


def heap(t):
    """text, and boxes which may hold more of the same"""
    if not t:
        return False
    if t['k'] == 'adt':
        n = tyname(t['p'])
        if n in ('String', 'Cow', 'OsString', 'PathBuf'):
            return True
        if n in ('Box', 'Arc', 'Rc') and t.get('a'):
            return t['a'][0]['k'] != 'dyn'
        return any(heap(x) for x in t.get('a') or ())
    return t['k'] == 'tuple' and any(heap(x) for x in t['a'])


def root_of(f, og, op):
    """the local a reference was taken of"""
    seen = set()
    while isinstance(op, list) and op and op[0] in ('mv', 'cp'):
        l = op[1]['l']
        if l in seen:
            return None
        seen.add(l)
        if container(f['body']['locals'][l]) and f['body']['locals'][l]['k'] != 'ref':
            return l
        d = [x for k, x in og.defs_of(f).get(l, ()) if k == 'rv']
        if len(d) != 1:
            return None
        d = d[0]
        if d[0] == 'ref':
            pl = next(x for x in d if isinstance(x, dict) and 'l' in x)
            op = ['cp', pl]
            if f['body']['locals'][pl['l']]['k'] != 'ref':
                return pl['l']
        elif d[0] in ('use', 'cast'):
            op = next((x for x in d[1:] if isinstance(x, list)), None)
        else:
            return None
    return None
