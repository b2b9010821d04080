"""Layout of snapshots: what a put_snapshot function writes, in which place, under which key."""
from spec import *

PUT = 'PutsSnapshot::put_snapshot'


class Odd(Exception):
    pass


class Lost(Odd):
    """something that was in the snapshot before is taken away"""


TAKES = ('after:pop', 'after:truncate', 'after:remove', 'after:swap_remove', 'after:drain', 'after:dedup', 'filtered')


def _takes(items, whole):
    """items already there are removed, however many there are"""
    if items.op == 'app' and items.a[0] in TAKES and len(items.a) > 1:
        amount = [x for x in items.a[2:] if isinstance(x, N)]
        b = items.a[1]
        while b.op == 'list' and b.a[0] is not None:
            b = b.a[0]
        return b is F(whole, 'items') and all(x.op in ('int', 'k') for x in amount)
    return False


def base_items(n):
    """(base, contributions) of a snapshot term: base is the term the contributions are added to, or 'new'"""
    if n.op == 'agg' and tyname(n.a[0]) == 'Snapshot':
        return _items(F(n, 'items'), None)
    if n.op == 'upd':
        ks = [k for k, _ in n.a[1]]
        if ks != ['items']:
            raise Odd('changes %s of a snapshot' % ks)
        b, seq = base_items(n.a[0])
        return b, seq + _tail(n.a[1][0][1], n.a[0])
    if n.op == 'rec':
        b, seq = base_items(n.a[1])
        alts = []
        for facts, x in n.a[2]:
            bb, ss = base_items(x)
            if bb is not ME:
                raise Odd('a loop replaces the snapshot by %s' % show(x)[:200])
            alts.append((facts, ss))
        return b, seq + [('loop', n.a[0], alts)]
    if n.op == 'post':
        b, seq = base_items(n.a[-1])
        return b, seq + [('child', n.a[0], n)]
    return n, []


def _tail(items, whole):
    """items written on top of those of `whole`"""
    if items is F(whole, 'items'):
        return []
    if items.op == 'list':
        b = items.a[0]
        pre = [] if b is None else _tail(b, whole)
        if b is None and not (whole.op == 'agg'):
            raise Lost('the items of a snapshot are replaced')
        return pre + [('item',) + split(x) for x in items.a[1]]
    if items.op == 'rec':
        pre = _tail(items.a[1], whole)
        taken = _spliced(items)
        if taken is not None:
            return pre + taken
        alts = []
        for facts, x in items.a[2]:
            if x is ME:
                alts.append((facts, []))
            elif x.op == 'list' and x.a[0] is ME:
                alts.append((facts, [('item',) + split(y) for y in x.a[1]]))
            else:
                raise Odd('a loop changes items to %s' % show(x)[:200])
        return pre + [('loop', items.a[0], alts)]
    if _takes(items, whole):
        raise Lost('items of the snapshot are removed: %s' % show(items)[:200])
    raise Odd('items become %s' % show(items)[:200])


def _items(items, _):
    if items.op == 'list':
        b = items.a[0]
        if b is None:
            return 'new', [('item',) + split(x) for x in items.a[1]]
        bb, pre = _items(b, None)
        return bb, pre + [('item',) + split(x) for x in items.a[1]]
    if items.op == 'rec':
        bb, pre = _items(items.a[1], None)
        taken = _spliced(items)
        if taken is not None:
            return bb, pre + taken
        alts = []
        for facts, x in items.a[2]:
            if x is ME:
                alts.append((facts, []))
            elif x.op == 'list' and x.a[0] is ME:
                alts.append((facts, [('item',) + split(y) for y in x.a[1]]))
            else:
                raise Odd('a loop changes items to %s' % show(x)[:200])
        return bb, pre + [('loop', items.a[0], alts)]
    return items, []


def _spliced(items):
    """the loop appends, one by one, all items of another snapshot that was filled before: its content, or None"""
    coll = items.a[0]
    if len(items.a[2]) != 1:
        return None
    (facts, x), = items.a[2]
    if facts or x.op != 'list' or x.a[0] is not ME or len(x.a[1]) != 1:
        return None
    y = x.a[1][0]
    if y is not mk('elem', coll):
        return None
    X = coll.a[0] if coll.op == 'f' and coll.a[1] == 'items' else None
    if X is None:
        return None
    try:
        b, seq = base_items(X)
    except Odd:
        return None
    return seq if b == 'new' else None


def split(pair):
    if pair.op in ('agg', 'tuple'):
        return F(pair, '0'), F(pair, '1')
    return F(pair, '0'), F(pair, '1')


def key_of(k):
    return k.a[1] if k.op == 'k' else k


def nested(v):
    """content of ItemKind::Snapshot(x), or None"""
    if v.op == 'agg' and v.a[1] == 'Snapshot':
        return v.a[2][0][1]
    return None


def show_seq(seq, d=0):
    r = []
    for x in seq:
        if x[0] == 'item':
            s = nested(x[2])
            if s is not None:
                try:
                    b, q = base_items(s)
                    r.append('  ' * d + '%s: {%s' % (show(x[1]), '' if b == 'new' else show(b)))
                    r += show_seq(q, d + 1)
                    continue
                except Odd as e:
                    r.append('  ' * d + 'ODD ' + str(e))
            r.append('  ' * d + '%s: %s' % (show(x[1]), show(x[2])[:200]))
        elif x[0] == 'child':
            r.append('  ' * d + 'child %s %s' % (x[1], [show(y)[:60] for y in x[2].a[3:-1] if isinstance(y, N)]))
        else:
            r.append('  ' * d + 'for ' + (show(x[1]) if x[1] is not None else 'while'))
            for f, q in x[2]:
                r += show_seq(q, d + 1)
    return r
