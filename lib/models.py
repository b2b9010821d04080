"""Transfer functions for std / third party calls that the analysis does not look into."""
from terms import *

TABLE = {}
KNOWN_OPAQUE = set()


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# what calls into other crates need not to panic: terms that must not be negative
NEEDS = {}


def needs(*names):
    def d(f):
        for n in names:
            NEEDS[n] = f
        return f
    return d


@needs('Vec::remove', 'Vec::swap_remove')
def n_within(c):
    return [add(add(c.e.length(c.st, c.args[0]), c.r(1), -1), kint(1), -1)]


@needs('Vec::insert', 'Vec::split_off', 'VecDeque::insert', 'slice::split_at', 'slice::split_at_mut', 'slice::rotate_left', 'slice::rotate_right')
def n_upto(c):
    return [add(c.e.length(c.st, c.args[0]), c.r(1), -1)]


@needs('slice::swap')
def n_swap(c):
    n = add(c.e.length(c.st, c.args[0]), kint(1), -1)
    return [add(n, c.r(1), -1), add(n, c.r(2), -1)]


@needs('slice::chunks', 'slice::chunks_mut', 'slice::windows', 'slice::chunks_exact', 'slice::rchunks', 'Iterator::step_by')
def n_positive(c):
    return [add(c.r(1), kint(1), -1)]


@needs('slice::copy_from_slice', 'slice::clone_from_slice')
def n_alike(c):
    d = add(c.e.length(c.st, c.args[0]), c.e.length(c.st, c.args[1]), -1)
    return [d, add(kint(0), d, -1)]


@needs('Ord::clamp')
def n_clamp(c):
    return [add(c.r(2), c.r(1), -1)]


@needs('Duration::from_secs_f64', 'Duration::from_secs_f32', 'Duration::mul_f64', 'Duration::mul_f32', 'Duration::div_f64', 'Duration::div_f32')
def n_seconds(c):
    return [c.r(i) for i in range(len(c.args))]


class Call:
    __slots__ = ('e', 'st', 'fr', 'name', 'info', 'args', 'atys', 'span', 'dty')

    def __init__(self, e, st, fr, name, info, args, atys, span, dty):
        self.e, self.st, self.fr, self.name, self.info = e, st, fr, name, info
        self.args, self.atys, self.span, self.dty = args, atys, span, dty

    def c(self, i):
        """content behind argument i (follows all pointers)"""
        return self.e.deep(self.st, self.args[i])

    def r(self, i):
        return self.e.resolve(self.st, self.args[i])

    def ty(self, i):
        import flow
        t = self.atys[i] if i < len(self.atys) else None
        return flow.unbox(flow.strip_refs(t)) if t else None

    def ret(self, v):
        return [(self.st, v)]

    def loc(self, i):
        return self.e.deep_loc(self.st, self.args[i])

    def callv(self, st, f, args):
        return self.e.call_value(st, self.fr, f, args, self.span, None)

    def sp(self):
        return self.e.spanstr(self.fr, self.span)


def tystr(t):
    import pp
    return pp.ty(t)


DROPNAMES = ('MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'RefMut', 'Ref')


def dropworthy(t):
    if t is None:
        return False
    if t['k'] == 'adt':
        n = t['p'].split('::')[-1]
        if n in DROPNAMES:
            return True
        if n in ('Result', 'Option', 'PoisonError'):
            return any(dropworthy(x) for x in t['a'])
    return False


# ------------------------------------------------------------------ identity like
@model('Deref::deref', 'DerefMut::deref_mut')
def m_deref(c):
    import flow
    t = flow.strip_refs(c.atys[0]) if c.atys and c.atys[0] else None
    if c.info.get('local') is not None:
        return None
    if flow.is_adt(t, 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'RefMut', 'Ref'):
        root, proj = c.e.deref_loc(c.st, c.args[0])
        return c.ret(c.e.read(c.st, root, proj))
    return c.ret(c.args[0])


@model('AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
       'String::as_str', 'str::as_str', 'String::as_bytes', 'str::as_bytes', 'slice::as_ref', 'Box::as_ref', 'Box::as_mut', 'Box::leak',
       'Arc::as_ref', 'Box::from', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'slice::into_vec', 'hint::black_box',
       'Box::into_inner', 'Pin::new', 'Pin::get_mut', 'Box::pin', 'Box::new', 'Arc::new', 'Rc::new', 'Mutex::new', 'RwLock::new', 'RefCell::new',
       'Cell::new', 'Atomic::new', 'Cell::from', 'convert::identity', 'hint::must_use', 'mem::ManuallyDrop::new', 'Box::assume_init',
       'slice::as_slice', 'IntoFuture::into_future', 'Arc::clone', 'Rc::clone', 'Into::into_boxed_str',
       'Wrapping::from', 'fmt::from_fn', 'Saturating::from', 'BoxBody::new', 'array::as_slice', 'Path::new', 'OsStr::new')
def m_id(c):
    if c.info.get('local') is not None:
        return None
    if c.name in ('Arc::clone', 'Rc::clone'):
        return c.ret(c.e.content(c.st, c.args[0]))
    return c.ret(c.args[0])


@model('Box::new_uninit', 'Box::new_uninit_in')
def m_new_uninit(c):
    root = ('T', c.e.newtmp())
    c.st.store[root] = UNINIT
    return c.ret(mk('ref', root, ()))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_into_vec_unsafe(c):
    return c.ret(c.e.content(c.st, c.args[0]))


@model('Clone::clone_from')
def m_clone_from(c):
    if c.info.get('local') is not None or c.args[0].op != 'ref':
        return None
    root, proj = c.loc(0)
    c.e.write(c.st, root, proj, c.r(1))
    return c.ret(UNIT)


@model('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', 'slice::to_vec', 'str::to_owned',
       'Clone::clone_from_', 'str::into_string', 'Cow::into_owned', 'ToString::to_string', 'String::from_str', 'str::to_string')
def m_clone(c):
    import flow
    if c.name == 'ToString::to_string' and c.info.get('local') is not None:
        return None
    if c.name in ('Clone::clone',):
        v = c.e.content(c.st, c.args[0])
        if c.info.get('selfty') is not None and c.info['selfty']['k'] == 'ref':
            return c.ret(v)
        v = c.e.resolve(c.st, v)
        return c.ret(v)
    if c.name in ('Option::cloned', 'Option::copied'):
        outs = []
        for s, x in c.e.opt_cases(c.st, c.args[0]):
            outs.append((s, NONE if x is None else some(c.e.resolve(s, x))))
        return outs
    v = c.r(0)
    if v.op == 'k' and v.a[0] == 'int':
        return c.ret(kstr(str(v.a[1])))
    if v.op == 'k' and v.a[0] == 'char':
        return c.ret(kstr(chr(v.a[1])))
    return c.ret(v)


@model('Into::into', 'From::from', 'TryInto::try_into_')
def m_into(c):
    import flow
    e = c.e
    cargs = c.info['cargs']
    if c.name == 'Into::into':
        src, dst = cargs[0], cargs[1]
    else:
        dst, src = cargs[0], cargs[1]
    if src == dst:
        return c.ret(c.args[0])
    if c.name == 'From::from' and c.info.get('local') is not None:
        return None
    # local From / Into impl
    cands = []
    for s, args, items in e.db.impls.get('core::convert::From', []):
        if len(args) == 2 and 'from' in items and tymatch(args[0], dst) and tymatch(args[1], src):
            cands.append((items['from'], args))
    for s, args, items in e.db.impls.get('core::convert::Into', []):
        if len(args) == 2 and 'into' in items and tymatch(args[1], dst) and tymatch(args[0], src):
            cands.append((items['into'], args))
    exact = [x for x in cands if not (x[1][1]['k'] == 'param')] or cands
    if src['k'] == 'param':
        exact = [x for x in cands if consistent(x[1], [dst, src])]
    if len(exact) == 1:
        f = e.db.fns[exact[0][0]]
        return e.inline(c.st, c.fr, f, c.args, tybind(exact[0][1], [dst, src]), c.span) if f['p'] not in c.fr.stack else None
    if dst['k'] == 'adt':
        n = flow.tyname(dst['p'])
        if n == 'Option':
            return c.ret(some(c.args[0]))
        if n in ('String', 'Box', 'Arc', 'Vec', 'Cow', 'Rc'):
            return c.ret(c.r(0) if n == 'String' or n == 'Vec' else c.args[0])
    if flow.is_int_ty(dst) and flow.is_int_ty(src):
        return c.ret(e.cast(c.st, 'IntToInt', c.r(0), dst, src))
    if flow.is_int_ty(dst) and flow.prim(src) == 'bool':
        return c.ret(e.cast(c.st, 'IntToInt', c.r(0), dst, src))
    if flow.is_float_ty(dst) and flow.is_int_ty(src):
        return c.ret(e.cast(c.st, 'IntToFloat', c.r(0), dst, src))
    if flow.is_float_ty(dst) and flow.is_float_ty(src):
        return c.ret(c.r(0))
    if src['k'] == 'param' or dst['k'] == 'param' or dst['k'] == 'alias':
        # conversion chosen by the caller: transparent
        return c.ret(app('into:' + tystr(dst), c.r(0)) if dst['k'] == 'adt' and dst['p'] in e.db.adts else c.r(0))
    return c.ret(app('into:' + tystr(dst), c.r(0)))


def tymatch(p, t):
    if p['k'] == 'param':
        return True
    if p['k'] != t['k']:
        return False
    if p['k'] in ('adt', 'tuple', 'fndef'):
        return p.get('p') == t.get('p') and len(p['a']) == len(t['a']) and all(tymatch(x, y) for x, y in zip(p['a'], t['a']))
    if p['k'] in ('ref', 'ptr', 'slice', 'array'):
        return tymatch(p['t'], t['t'])
    return p.get('s') == t.get('s')


def consistent(ps, ts):
    """patterns match with one binding per type parameter"""
    out = {}

    def go(p, t):
        if p['k'] == 'param':
            return out.setdefault(p['s'], t) == t
        if p['k'] != t['k']:
            return False
        if p['k'] in ('adt', 'tuple'):
            return p.get('p') == t.get('p') and len(p['a']) == len(t['a']) and all(go(x, y) for x, y in zip(p['a'], t['a']))
        if p['k'] in ('ref', 'ptr', 'slice', 'array'):
            return go(p['t'], t['t'])
        return p == t
    return all(go(p, t) for p, t in zip(ps, ts))


def tybind(ps, ts):
    out = {}

    def go(p, t):
        if p['k'] == 'param':
            out[p['s']] = t
        elif p['k'] in ('adt', 'tuple') and t.get('a') is not None:
            for x, y in zip(p['a'], t['a']):
                go(x, y)
        elif p['k'] in ('ref', 'ptr', 'slice', 'array') and t.get('t'):
            go(p['t'], t['t'])
    for p, t in zip(ps, ts):
        go(p, t)
    return out


@model('TryFrom::try_from', 'TryInto::try_into')
def m_tryfrom(c):
    import flow
    cargs = c.info['cargs']
    if c.info.get('local') is not None:
        return None
    dst, src = (cargs[0], cargs[1]) if c.name == 'TryFrom::try_from' else (cargs[1], cargs[0])
    if flow.is_int_ty(dst) and flow.is_int_ty(src):
        v = c.r(0)
        a, b = flow.prim(src), flow.prim(dst)
        if a[0] == 'u':
            mark_unsigned(v)
        w = flow.INTW[b]
        lo, hi = (0, (1 << w) - 1) if b[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        outs = []
        t1 = cmp_int('ge', v, kint(lo))
        t2 = cmp_int('le', v, kint(hi))
        if c.e.decide(c.st, t1) and c.e.decide(c.st, t2):
            return c.ret(ok(v))
        return c.ret(err(app('TryFromIntError')))
    return c.ret(app(c.name, c.r(0)))


@model('Default::default')
def m_default(c):
    import flow
    t = c.dty if c.dty is not None else c.info.get('selfty')
    if c.info.get('local') is not None:
        return None
    r = default_of(c, t)
    if r is None:
        return c.ret(app('default:' + tystr(t)))
    if isinstance(r, list):
        return r
    return c.ret(r)


def default_of(c, t):
    import flow
    if t is None:
        return None
    if flow.is_int_ty(t):
        return kint(0)
    if flow.prim(t) == 'bool':
        return FALSE
    if flow.is_float_ty(t):
        return K('float', '0.0')
    if t['k'] == 'tuple':
        xs = [default_of(c, x) for x in t['a']]
        return tup(*xs) if all(xs) and xs else (UNIT if not t['a'] else None)
    if t['k'] == 'adt':
        n = flow.tyname(t['p'])
        if n == 'Option':
            return NONE
        if n == 'Vec' or n == 'VecDeque':
            return lst(None, ())
        if n == 'String':
            return kstr('')
        if n == 'Duration':
            return kint(0)
        if n in ('Box', 'Arc', 'Cell', 'RefCell', 'Mutex') and t['a']:
            return default_of(c, t['a'][0])
        q = c.e.db.impl_fn('core::default::Default', 'default', t)
        if q:
            return c.e.inline(c.st, c.fr, c.e.db.fns[q], [], {}, c.span)
    return None


@model('mem::replace')
def m_replace(c):
    root, proj = c.e.deref_loc(c.st, c.args[0])
    old = c.e.read(c.st, root, proj)
    c.e.write(c.st, root, proj, c.args[1])
    return c.ret(old)


@model('mem::take')
def m_take(c):
    root, proj = c.e.deref_loc(c.st, c.args[0])
    old = c.e.read(c.st, root, proj)
    d = default_of(c, c.info['cargs'][0])
    if isinstance(d, list):
        outs = []
        for s, v in d:
            c.e.write(s, root, proj, v)
            outs.append((s, old))
        return outs
    c.e.write(c.st, root, proj, d if d is not None else app('default:' + tystr(c.info['cargs'][0])))
    return c.ret(old)


@model('mem::swap')
def m_swap(c):
    a = c.e.deref_loc(c.st, c.args[0])
    b = c.e.deref_loc(c.st, c.args[1])
    x, y = c.e.read(c.st, *a), c.e.read(c.st, *b)
    c.e.write(c.st, a[0], a[1], y)
    c.e.write(c.st, b[0], b[1], x)
    return c.ret(UNIT)


@model('mem::drop', 'mem::forget')
def m_drop(c):
    t = c.atys[0] if c.atys else None
    if dropworthy(t):
        c.e.event(c.st, 'drop', c.r(0), (kstr(tystr(t)),), UNIT, c.sp())
    return c.ret(UNIT)


# ------------------------------------------------------------------ function values
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_fncall(c):
    t = c.c(1) if c.args[1].op == 'ref' else c.args[1]
    if t is UNIT:
        xs = []
    elif t.op == 'agg':
        xs = [v for _, v in t.a[2]]
    else:
        n = len(c.atys[1]['a']) if c.atys[1] and c.atys[1]['k'] == 'tuple' else 1
        xs = [proj_get(t, str(i)) for i in range(n)]
    return c.callv(c.st, c.args[0], xs)


# ------------------------------------------------------------------ Option / Result extras (the rest comes from std MIR)
def opt_cases(c, i=0):
    return c.e.opt_cases(c.st, c.args[i])


@model('Option::unwrap_or_default')
def m_unwrap_or_default(c):
    out = []
    for s, x in opt_cases(c):
        if x is None:
            d = default_of(c, c.info['cargs'][0])
            out.append((s, d if d is not None and not isinstance(d, list) else app('default')))
        else:
            out.append((s, x))
    return out


@model('Option::iter', 'Option::iter_mut')
def m_opt_iter(c):
    return c.ret(mk('iter', mk('optsrc', c.args[0]), ()))


@model('Option::as_deref', 'Option::as_deref_mut', 'Option::as_ref', 'Option::as_mut', 'Option::as_slice')
def m_opt_as_ref(c):
    e = c.e
    root, proj = c.loc(0)
    o = e.read(c.st, root, proj)
    import flow
    v = e.variant(c.st, o, OPT)
    if v == 'None':
        return c.ret(NONE)
    return c.ret(some(mk('ref', root, proj + ('Some.0',))))


@model('Option::insert', 'Option::replace', 'Option::get_or_insert', 'Option::get_or_insert_with')
def m_opt_insert(c):
    e = c.e
    root, proj = c.loc(0)
    old = e.read(c.st, root, proj)
    if c.name in ('Option::get_or_insert', 'Option::get_or_insert_with'):
        v = e.variant(c.st, old, OPT)
        if v == 'Some':
            return c.ret(mk('ref', root, proj + ('Some.0',)))
        if c.name.endswith('with'):
            out = []
            for s, x in c.callv(c.st, c.args[1], []):
                e.write(s, root, proj, some(x))
                out.append((s, mk('ref', root, proj + ('Some.0',))))
            return out
    e.write(c.st, root, proj, some(c.args[1]))
    if c.name == 'Option::replace':
        return c.ret(old)
    return c.ret(mk('ref', root, proj + ('Some.0',)))


@model('Option::take')
def m_opt_take(c):
    e = c.e
    root, proj = c.loc(0)
    old = e.read(c.st, root, proj)
    e.write(c.st, root, proj, NONE)
    return c.ret(old)


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err')
def m_unwrap(c):
    e = c.e
    isopt = c.name.startswith('Option')
    good = 'Some' if isopt else ('Err' if c.name.endswith('_err') else 'Ok')
    v = c.args[0]
    var = e.variant(c.st, v, OPT if isopt else RES)
    if var != good:
        e.panic(c.fr, c.span, c.name, c.st, ops=[c.args[0]])
        return []
    return c.ret(proj_get(e.deep(c.st, v), good + '.0'))


@model('Try::branch')
def m_try(c):
    CF = 'core::ops::control_flow::ControlFlow'
    e = c.e
    t = c.ty(0)
    import flow
    v = c.args[0]
    if flow.is_adt(t, 'Option'):
        var = e.variant(c.st, v, OPT)
        if var == 'Some':
            return c.ret(agg(CF, 'Continue', (('0', proj_get(e.deep(c.st, v), 'Some.0')),)))
        return c.ret(agg(CF, 'Break', (('0', NONE),)))
    if flow.is_adt(t, 'Result'):
        var = e.variant(c.st, v, RES)
        if var == 'Ok':
            return c.ret(agg(CF, 'Continue', (('0', proj_get(e.deep(c.st, v), 'Ok.0')),)))
        return c.ret(agg(CF, 'Break', (('0', err(proj_get(e.deep(c.st, v), 'Err.0'))),)))
    return None


@model('FromResidual::from_residual')
def m_fromres(c):
    return c.ret(c.args[0])


# ------------------------------------------------------------------ comparison
def cmp_typed(c, op, a, b, t):
    import flow
    if flow.is_int_ty(t):
        if flow.prim(t)[0] == 'u':
            for x in (a, b):
                if x.op != 'lin':
                    mark_unsigned(x)
        return cmp_int(op, a, b)
    if flow.is_time_ty(t):
        if flow.tyname(t['p']) == 'Duration':
            for x in (a, b):
                if x.op != 'lin':
                    mark_unsigned(x)
        return cmp_int(op, a, b)
    if flow.is_float_ty(t):
        return cmp_float(op, a, b)
    return None


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(c):
    import flow
    e = c.e
    a, b = c.r(0), c.r(1)
    op = c.name.split('::')[1]
    t = c.ty(0)
    r = eq_term(c, a, b, t)
    return c.ret(r if op == 'eq' else neg(r))


def eq_term(c, a, b, t):
    """a == b as a term; splits on variants and booleans where the structure is known"""
    import flow
    e = c.e
    if a is b and not flow.is_float_ty(t):
        return TRUE
    r = cmp_typed(c, 'eq', a, b, t)
    if r is not None:
        return r
    if flow.prim(t) == 'bool':
        return b if e.decide(c.st, a) else neg(b)
    if not t:
        return cmp_eq(a, b)
    if t['k'] == 'tuple' and t.get('a') and (a.op == 'agg' or b.op == 'agg'):
        for i, x in enumerate(t['a']):
            q = eq_term(c, e.deep(c.st, proj_get(a, str(i))), e.deep(c.st, proj_get(b, str(i))), flow.unbox(flow.strip_refs(x)))
            if not e.decide(c.st, q):
                return FALSE
        return TRUE
    if flow.is_adt(t, 'Option', 'Result') and (a.op == 'agg' or b.op == 'agg'):
        adt = t['p']
        va, vb = e.variant(c.st, a, adt), e.variant(c.st, b, adt)
        if va != vb:
            return FALSE
        if va == 'None':
            return TRUE
        x, y = e.deep(c.st, proj_get(a, va + '.0')), e.deep(c.st, proj_get(b, vb + '.0'))
        it = t['a'][1 if va == 'Err' else 0] if t['a'] else None
        it = flow.unbox(flow.strip_refs(it)) if it else None
        return eq_term(c, x, y, it)
    if t['k'] == 'adt' and e.db.variants(t['p']) and (a.op == 'agg' or b.op == 'agg') and \
            all(len(v['f']) == 0 for v in e.db.adts.get(t['p'], {'vs': [{'f': [1]}]})['vs']):
        return kbool(e.variant(c.st, a, t['p']) == e.variant(c.st, b, t['p']))
    return cmp_eq(a, b)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(c):
    op = c.name.split('::')[1]
    a, b = c.r(0), c.r(1)
    r = cmp_typed(c, op, a, b, c.ty(0))
    if r is not None:
        return c.ret(r)
    return c.ret(app(op, a, b))


ORDERING = 'core::cmp::Ordering'


@model('Ord::cmp', 'PartialOrd::partial_cmp', 'f64::total_cmp')
def m_cmp(c):
    a, b = c.r(0), c.r(1)
    lt = cmp_typed(c, 'lt', a, b, c.ty(0))
    eq = cmp_typed(c, 'eq', a, b, c.ty(0))
    if lt is None or c.e.deep(c.st, a).op == 'agg':
        return c.ret(app(c.name, a, b))
    if c.e.decide(c.st, lt):
        r = agg(ORDERING, 'Less', ())
    elif c.e.decide(c.st, eq):
        r = agg(ORDERING, 'Equal', ())
    else:
        r = agg(ORDERING, 'Greater', ())
    return c.ret(some(r) if c.name.startswith('Partial') else r)


@model('cmp::max', 'cmp::min', 'Ord::max', 'Ord::min', 'f64::max', 'f64::min')
def m_minmax(c):
    import flow
    a, b = c.r(0), c.r(1)
    t = c.ty(0) or (c.info['cargs'][0] if c.info['cargs'] else None) or c.dty
    mx = c.name.endswith('max')
    if a is b:
        return c.ret(a)
    r = cmp_typed(c, 'ge', a, b, t)
    if r is None or flow.is_float_ty(t):
        x, y = sorted((a, b), key=lambda n: n.id)
        return c.ret(app('max' if mx else 'min', x, y))
    ge = c.e.decide(c.st, r)
    return c.ret(a if ge == mx else b)


@model('Ord::clamp')
def m_clamp(c):
    v, lo, hi = c.r(0), c.r(1), c.r(2)
    if c.e.decide(c.st, cmp_typed(c, 'lt', v, lo, c.ty(0)) or app('lt', v, lo)):
        return c.ret(lo)
    if c.e.decide(c.st, cmp_typed(c, 'gt', v, hi, c.ty(0)) or app('gt', v, hi)):
        return c.ret(hi)
    return c.ret(v)


# ------------------------------------------------------------------ arithmetic via traits
def tn(t):
    return t['p'].split('::')[-1] if t and t.get('k') == 'adt' else 'int'


def arith(c, op, a, b):
    import flow
    t0, t1 = c.ty(0), c.ty(1)
    if flow.is_float_ty(t0):
        if op in ('add', 'mul'):
            x, y = sorted((a, b), key=lambda n: n.id)
            return app('f' + op, x, y)
        return app('f' + op, a, b)
    if flow.is_int_ty(t0) or flow.is_time_ty(t0) or (op == 'mul' and flow.is_time_ty(t1)):
        if not flow.is_int_ty(t0) or not flow.is_int_ty(t1):
            c.e.panic(c.fr, c.span, 'time %s %s %s' % (tn(t0), op, tn(t1)), c.st, ops=[a, b])
        elif op in ('div', 'rem'):
            c.e.panic(c.fr, c.span, op + 'zero', c.st, ops=[a, b])
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return add(a, b, -1)
        if op == 'mul':
            return mul(a, b)
        if op == 'div':
            return idiv(a, b)
        if op == 'rem':
            return irem(a, b)
    if flow.is_adt(t0, 'String') and op == 'add':
        return cat([a, b])
    return app(op, a, b)


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def m_arith(c):
    if c.info.get('local') is not None:
        return None
    return c.ret(arith(c, c.name.split('::')[1], c.r(0), c.r(1)))


@model('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign')
def m_arith_assign(c):
    if c.info.get('local') is not None:
        return None
    root, proj = c.loc(0)
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    import flow
    if c.ty(0) is not None and flow.is_adt(c.ty(0), 'Cow', 'String'):
        c.e.write(c.st, root, proj, cat([v, c.r(1)]))
        return c.ret(UNIT)
    c.e.write(c.st, root, proj, arith(c, c.name.split('::')[1][:3], v, c.r(1)))
    return c.ret(UNIT)


for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'i128', 'u128', 'num', 'Duration', 'Instant'):
    for _o in ('add', 'sub', 'mul', 'div'):
        for _p in ('saturating', 'wrapping', 'checked', 'unchecked', 'overflowing'):
            def _f(c, o=_o, p=_p):
                a, b = c.r(0), c.r(1)
                if o == 'add':
                    v = add(a, b)
                elif o == 'sub':
                    v = add(a, b, -1)
                elif o == 'mul':
                    v = mul(a, b)
                else:
                    v = idiv(a, b)
                if p == 'checked':
                    if c.e.decide(c.st, mk_overflow(o, a, b)):
                        return c.ret(NONE)
                    return c.ret(some(v))
                if p == 'saturating' and o == 'sub':
                    import flow
                    t = c.ty(0)
                    if flow.prim(t) and flow.prim(t)[0] == 'u' or flow.is_adt(t, 'Duration'):
                        for x in (a, b):
                            if x.op != 'lin':
                                mark_unsigned(x)
                        if c.e.decide(c.st, cmp_int('lt', a, b)):
                            return c.ret(kint(0))
                if p == 'overflowing':
                    return c.ret(tup(v, mk_overflow(o, a, b)))
                return c.ret(v)
            TABLE['%s::%s_%s' % (_t, _p, _o)] = _f


def mk_overflow(o, a, b):
    return mk('bool', app('overflow:' + o, a, b)).a[0]


@model('i64::abs', 'i64::unsigned_abs', 'i64::pow', 'u64::pow', 'i64::rem_euclid', 'f64::exp', 'f64::round', 'f64::floor', 'f64::ceil', 'f64::abs', 'f64::trunc',
       'f64::is_nan', 'f64::is_finite', 'f64::sqrt', 'f64::ln', 'f64::powi', 'f64::powf', 'f64::mul_add', 'u64::abs_diff', 'f64::to_bits', 'u64::count_ones', 'f64::is_infinite', 'f64::clamp',
       'f64::is_sign_negative', 'i64::signum', 'i64::is_negative_', 'usize::pow', 'u64::leading_zeros', 'u32::pow', 'i64::saturating_abs', 'usize::abs_diff')
def m_pure_num(c):
    a = [c.r(i) for i in range(len(c.args))]
    if c.name.endswith('::pow') and isint(a[0]) and isint(a[1]):
        return c.ret(kint(a[0].a[1] ** a[1].a[1]))
    return c.ret(app(c.name, *a))


@model('i64::is_negative')
def m_isneg(c):
    return c.ret(cmp_int('lt', c.r(0), kint(0)))


@model('i64::is_positive')
def m_ispos(c):
    return c.ret(cmp_int('gt', c.r(0), kint(0)))


@model('BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor')
def m_bits(c):
    t = c.ty(0)
    while t and t['k'] == 'ref':
        t = t['t']
    if c.info.get('local') is not None or not t or t['k'] != 'prim':
        return None
    return c.ret(c.e.binop(c.st, {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[c.name.split('::')[1]], c.r(0), c.r(1), t))


@model('BitAndAssign::bitand_assign', 'BitOrAssign::bitor_assign', 'BitXorAssign::bitxor_assign')
def m_bits_assign(c):
    t = c.ty(0)
    while t and t['k'] == 'ref':
        t = t['t']
    if c.info.get('local') is not None or not t or t['k'] != 'prim':
        return None
    root, proj = c.loc(0)
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    c.e.write(c.st, root, proj, c.e.binop(c.st, {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[c.name.split('::')[1][:-7]], v, c.r(1), t))
    return c.ret(UNIT)


@model('Not::not')
def m_not(c):
    return c.ret(neg(c.r(0)))


@model('Neg::neg')
def m_neg(c):
    return c.ret(scale(c.r(0), -1))


# ------------------------------------------------------------------ time
NS = 1000000000


@model('Instant::now', 'Clock::now_')
def m_now(c):
    n, k = c.e.callnode(c.st, 'now', ())
    return c.ret(n)


@model('Instant::elapsed')
def m_elapsed(c):
    n, k = c.e.callnode(c.st, 'now', ())
    return c.ret(add(n, c.r(0), -1))


@model('Instant::duration_since')
def m_since(c):
    return c.ret(add(c.r(0), c.r(1), -1))


@model('Instant::saturating_duration_since')
def m_sat_since(c):
    a, b = c.r(0), c.r(1)
    if c.e.decide(c.st, cmp_int('lt', a, b)):
        return c.ret(kint(0))
    return c.ret(add(a, b, -1))


@model('Instant::checked_duration_since')
def m_chk_since(c):
    a, b = c.r(0), c.r(1)
    if c.e.decide(c.st, cmp_int('lt', a, b)):
        return c.ret(NONE)
    return c.ret(some(add(a, b, -1)))


@model('Instant::checked_add', 'Instant::checked_sub', 'Duration::checked_add')
def m_inst_checked(c):
    a, b = c.r(0), c.r(1)
    s = -1 if c.name.endswith('sub') else 1
    if c.e.decide(c.st, mk_overflow('add' if s == 1 else 'sub', a, b)):
        return c.ret(NONE)
    return c.ret(some(add(a, b, s)))


@model('Duration::checked_sub')
def m_dur_checked_sub(c):
    a, b = c.r(0), c.r(1)
    if c.e.decide(c.st, cmp_int('lt', a, b)):
        return c.ret(NONE)
    return c.ret(some(add(a, b, -1)))


@model('Duration::saturating_sub', 'Duration::abs_diff')
def m_dur_sat_sub(c):
    a, b = c.r(0), c.r(1)
    if c.e.decide(c.st, cmp_int('lt', a, b)):
        return c.ret(kint(0) if c.name.endswith('sub') else add(b, a, -1))
    return c.ret(add(a, b, -1))


@model('Duration::from_secs')
def m_fs(c):
    return c.ret(scale(c.r(0), NS))


@model('Duration::from_millis')
def m_fm(c):
    return c.ret(scale(c.r(0), 1000000))


@model('Duration::from_micros')
def m_fu(c):
    return c.ret(scale(c.r(0), 1000))


@model('Duration::from_nanos')
def m_fn(c):
    return c.ret(c.r(0))


@model('Duration::from_mins')
def m_fmi(c):
    return c.ret(scale(c.r(0), 60 * NS))


@model('Duration::new')
def m_dnew(c):
    return c.ret(add(scale(c.r(0), NS), c.r(1)))


def _dur(i, c):
    v = c.r(i)
    mark_unsigned(v)
    return v


@model('Duration::as_secs')
def m_as_secs(c):
    return c.ret(idiv(_dur(0, c), kint(NS)))


@model('Duration::as_millis')
def m_as_millis(c):
    return c.ret(idiv(_dur(0, c), kint(1000000)))


@model('Duration::as_micros')
def m_as_micros(c):
    return c.ret(idiv(_dur(0, c), kint(1000)))


@model('Duration::as_nanos')
def m_as_nanos(c):
    return c.ret(_dur(0, c))


@model('Duration::subsec_nanos')
def m_subsec(c):
    return c.ret(irem(_dur(0, c), kint(NS)))


@model('Duration::subsec_millis')
def m_subsecm(c):
    return c.ret(idiv(irem(_dur(0, c), kint(NS)), kint(1000000)))


@model('Duration::subsec_micros')
def m_subsecu(c):
    return c.ret(idiv(irem(_dur(0, c), kint(NS)), kint(1000)))


@model('Duration::as_secs_f64', 'Duration::as_secs_f32', 'Duration::from_secs_f64', 'Duration::mul_f64')
def m_as_secs_f(c):
    return c.ret(app(c.name, *[c.r(i) for i in range(len(c.args))]))


@model('Duration::is_zero')
def m_dzero(c):
    return c.ret(cmp_int('eq', _dur(0, c), kint(0)))


# ------------------------------------------------------------------ cells, locks, atomics
@model('Cell::get')
def m_cell_get(c):
    root, proj = c.loc(0)
    return c.ret(c.e.read(c.st, root, proj))


@model('Cell::set')
def m_cell_set(c):
    root, proj = c.loc(0)
    c.e.write(c.st, root, proj, c.args[1])
    return c.ret(UNIT)


@model('Cell::replace')
def m_cell_replace(c):
    root, proj = c.loc(0)
    o = c.e.read(c.st, root, proj)
    c.e.write(c.st, root, proj, c.args[1])
    return c.ret(o)


@model('Cell::take')
def m_cell_take(c):
    root, proj = c.loc(0)
    o = c.e.read(c.st, root, proj)
    c.e.write(c.st, root, proj, default_of(c, c.info['cargs'][0]) or app('default'))
    return c.ret(o)


@model('RefCell::try_borrow_mut', 'RefCell::try_borrow')
def m_try_borrow(c):
    root, proj = c.loc(0)
    b = app('already-borrowed', c.e.locname(c.st, c.args[0]))
    if c.e.decide(c.st, b):
        return c.ret(err(app('BorrowError')))
    return c.ret(ok(mk('ref', root, proj)))


@model('RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::get_mut', 'Mutex::get_mut_', 'Cell::get_mut')
def m_borrow(c):
    root, proj = c.loc(0)
    return c.ret(mk('ref', root, proj))


@model('Mutex::lock', 'RwLock::read', 'RwLock::write')
def m_lock(c):
    root, proj = c.loc(0)
    c.e.event(c.st, 'lock', c.e.locname(c.st, c.args[0]), (), UNIT, c.sp())
    b = app('poisoned', c.e.locname(c.st, c.args[0]))
    if c.e.decide(c.st, b):
        return c.ret(err(mk('ref', root, proj)))
    return c.ret(ok(mk('ref', root, proj)))


@model('Mutex::try_lock')
def m_trylock(c):
    root, proj = c.loc(0)
    b = app('would-block', c.e.locname(c.st, c.args[0]))
    if c.e.decide(c.st, b):
        return c.ret(err(app('TryLockError')))
    c.e.event(c.st, 'lock', c.e.locname(c.st, c.args[0]), (), UNIT, c.sp())
    return c.ret(ok(mk('ref', root, proj)))


@model('PoisonError::into_inner', 'PoisonError::get_mut', 'PoisonError::get_ref')
def m_poison(c):
    return c.ret(c.args[0])


@model('Atomic::load')
def m_load(c):
    n, k = c.e.callnode(c.st, 'atomic-load', (c.e.locname(c.st, c.args[0]),))
    return c.ret(n)


@model('Atomic::store')
def m_store(c):
    outs = []
    for s, v in c.e.concretize(c.st, c.r(1)):
        s = s.copy()
        c.e.event(s, 'atomic-store', c.e.locname(s, c.args[0]), (v,), UNIT, c.sp())
        outs.append((s, UNIT))
    return outs


@model('Atomic::swap', 'Atomic::fetch_add', 'Atomic::fetch_sub', 'Atomic::compare_exchange', 'Atomic::fetch_or', 'Atomic::fetch_and')
def m_rmw(c):
    nm = 'atomic-' + c.name.split('::')[1]
    a = [c.r(i) for i in range(1, len(c.args))]
    n, k = c.e.callnode(c.st, nm, [c.e.locname(c.st, c.args[0])] + a)
    c.e.event(c.st, nm, c.e.locname(c.st, c.args[0]), a, n, c.sp())
    return c.ret(n)


# ------------------------------------------------------------------ strings
def parts_of(v):
    if v.op == 'str':
        return list(v.a[0])
    if v.op == 'k' and v.a[0] == 'str':
        return [v.a[1]]
    if v.op == 'k' and v.a[0] == 'int':
        return [str(v.a[1])]
    if v.op == 'k' and v.a[0] == 'char':
        return [chr(v.a[1])]
    return [v]


def cat(vals):
    out = []
    for v in vals:
        for p in (parts_of(v) if isinstance(v, N) else [v]):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
    if not out:
        return kstr('')
    if len(out) == 1:
        return kstr(out[0]) if isinstance(out[0], str) else out[0]
    return mk('str', tuple(out))


def decode_template(b, args):
    out = []
    i = 0
    ai = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i:i + x]).decode('utf8', 'replace'))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(bytes(b[i + 2:i + 2 + n]).decode('utf8', 'replace'))
            i += 2 + n
        else:
            opts = []
            if x & 1:
                opts.append(('flags', bytes(b[i:i + 4]).hex()))
                i += 4
            if x & 2:
                opts.append(('width', b[i] | b[i + 1] << 8))
                i += 2
            if x & 4:
                opts.append(('prec', b[i] | b[i + 1] << 8))
                i += 2
            if x & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            v = args[ai] if ai < len(args) else K('disp', '?')
            ai += 1
            out.append(v if not opts else app('fmt:%s' % opts, v))
    return cat(out)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_arg(c):
    v = c.r(0)
    return c.ret(v if c.name.endswith('display') else app('debug', v))


@model('Arguments::new')
def m_args_new(c):
    t = c.c(0)
    a = c.c(1)
    if t.op == 'k' and t.a[0] == 'bytes' and a.op == 'list':
        return c.ret(decode_template(t.a[1], [c.e.resolve(c.st, x) for x in a.a[1]]))
    return c.ret(app('fmt', t, a))


@model('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_args_str(c):
    return c.ret(c.r(0))


@model('fmt::format', 'format::format_inner')
def m_format(c):
    return c.ret(c.r(0))


@model('String::new', 'String::with_capacity')
def m_snew(c):
    return c.ret(kstr(''))


@model('String::push_str', 'String::push', 'Write::write_str_', 'String::write_str')
def m_push_str(c):
    root, proj = c.loc(0)
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    x = c.r(1)
    c.e.write(c.st, root, proj, cat([v, x]))
    return c.ret(UNIT)


@model('slice::concat', 'slice::join', 'Join::join', 'Concat::concat')
def m_concat(c):
    v = c.r(0)
    if v.op == 'list' and v.a[0] is None:
        if len(c.args) > 1:
            sep = c.r(1)
            out = []
            for i, x in enumerate(v.a[1]):
                if i:
                    out.append(sep)
                out.append(x)
            return c.ret(cat(out))
        return c.ret(cat(list(v.a[1])))
    return c.ret(app(c.name, *[c.r(i) for i in range(len(c.args))]))


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty')
def m_is_empty(c):
    return c.ret(cmp_int('eq', c.e.length(c.st, c.args[0]), kint(0)))


@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'ExactSizeIterator::len', 'VecDeque::len')
def m_len(c):
    v = c.c(0)
    if v.op == 'iter':
        return None
    return c.ret(c.e.length(c.st, c.args[0]))


@model('str::starts_with', 'str::ends_with', 'str::trim', 'str::to_lowercase', 'str::to_uppercase', 'str::split', 'str::chars', 'str::splitn', 'str::find',
       'str::contains', 'str::split_once', 'str::rsplit', 'str::eq_ignore_ascii_case', 'str::strip_prefix', 'str::strip_suffix', 'str::trim_matches', 'str::split_terminator',
       'str::trim_end_matches', 'str::trim_start_matches', 'str::to_ascii_lowercase', 'str::replace')
def m_strpure(c):
    n = app(c.name, *[c.r(i) for i in range(len(c.args))])
    if c.name in ('str::split', 'str::chars', 'str::splitn', 'str::rsplit', 'str::split_terminator'):
        return c.ret(mk('iter', mk('coll', n), ()))
    return c.ret(n)


# ------------------------------------------------------------------ Vec / slices
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def m_vnew(c):
    return c.ret(lst(None, ()))


def append(v, items):
    if v.op == 'list':
        return lst(v.a[0], v.a[1] + tuple(items))
    return lst(v, items)


@model('Vec::push', 'VecDeque::push_back')
def m_push(c):
    root, proj = c.loc(0)
    outs = []
    for s, x in c.e.concretize(c.st, c.r(1)):
        s = s.copy()
        v = c.e.read(s, root, proj)
        c.e.write(s, root, proj, append(v, [x]))
        outs.append((s, UNIT))
    return outs


@model('Vec::insert')
def m_insert(c):
    root, proj = c.loc(0)
    v = c.e.read(c.st, root, proj)
    if v.op == 'list' and v.a[0] is None and c.r(1) is kint(0):
        c.e.write(c.st, root, proj, lst(None, (c.r(2),) + v.a[1]))
    else:
        c.e.write(c.st, root, proj, app('insert', v, c.r(1), c.r(2)))
    return c.ret(UNIT)


@model('Vec::clear', 'String::clear', 'VecDeque::clear')
def m_clear(c):
    root, proj = c.loc(0)
    c.e.write(c.st, root, proj, lst(None, ()) if c.name.startswith('V') else kstr(''))
    return c.ret(UNIT)


@model('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'Vec::remove', 'Vec::swap_remove', 'Vec::truncate', 'Vec::drain', 'Vec::split_off', 'Vec::dedup', 'slice::sort', 'slice::reverse',
       'slice::sort_by', 'slice::sort_unstable', 'slice::swap', 'Vec::resize', 'Vec::dedup_by_key', 'slice::sort_by_key', 'Vec::splice', 'VecDeque::remove')
def m_vmut(c):
    root, proj = c.loc(0)
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    a = [c.r(i) for i in range(1, len(c.args))]
    n = c.name.split('::')[1]
    if n == 'pop' and v.op == 'list' and v.a[1]:
        c.e.write(c.st, root, proj, lst(v.a[0], v.a[1][:-1]))
        return c.ret(some(v.a[1][-1]))
    if n == 'truncate' and v.op == 'list':
        for j in range(len(v.a[1]) + 1):
            if c.e.length(c.st, lst(v.a[0], v.a[1][:j])) is a[0]:
                c.e.write(c.st, root, proj, lst(v.a[0], v.a[1][:j]))
                return c.ret(UNIT)
    c.e.write(c.st, root, proj, app('after:' + n, v, *a))
    r = app(n, v, *a)
    if n == 'drain':
        return c.ret(mk('iter', mk('coll', v), ()))
    if c.dty is not None and c.dty['k'] == 'tuple' and not c.dty['a']:
        return c.ret(UNIT)
    return c.ret(r)


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(c):
    root, proj = c.loc(0)
    e = c.e
    v = e.resolve(c.st, e.read(c.st, root, proj))
    coll = v
    elem = mk('elem', coll)
    outs = e.call_value(c.st.copy(), c.fr, c.args[1], [elem], c.span, None)
    keep, drop = [], []
    base = c.st.facts
    for s, b in outs:
        for s2, val in e.branch(s, b):
            d = {a: f for a, f in s2.facts.items() if base.get(a) != f}
            (keep if val else drop).append(d)
    from flow import merge_facts
    kf = frozenset(frozenset(d.items()) for d in merge_facts(keep))
    e.write(c.st, root, proj, mk('filtered', coll, kf))
    return c.ret(UNIT)


@model('Extend::extend', 'Vec::append', 'Vec::extend_from_slice')
def m_extend(c):
    e = c.e
    root, proj = c.loc(0)
    if c.name == 'Vec::append':
        r2 = c.loc(1)
        other = e.resolve(c.st, e.read(c.st, *r2))
        it = into_iter(e, c.st, other, None)
        e.write(c.st, r2[0], r2[1], lst(None, ()))
    else:
        it = into_iter(e, c.st, c.args[1], c.atys[1] if len(c.atys) > 1 else None)

    def body(s, x):
        v = e.read(s, root, proj)
        out = []
        for s2, y in e.concretize(s, e.resolve(s, x)):
            s2 = s2.copy()
            e.write(s2, root, proj, append(e.read(s2, root, proj), [y]))
            out.append((s2, 'cont', None))
        return out
    return [(s, UNIT) for s, k, p in drive(c, it, body)]


@model('Vec::resize', 'Vec::resize_with')
def m_resize(c):
    e = c.e
    root, proj = c.loc(0)
    v = e.deep(c.st, e.read(c.st, root, proj))
    if v.op != 'list' or v.a[0] is not None or v.a[1]:
        return None
    it = mk('iter', count_to(c.r(1)), (mk('stage', 'gen' if c.name.endswith('with') else 'const', c.args[2]),))

    def body(s, x):
        out = []
        for s2, y in e.concretize(s, e.resolve(s, x)):
            s2 = s2.copy()
            e.write(s2, root, proj, append(e.read(s2, root, proj), [y]))
            out.append((s2, 'cont', None))
        return out
    return [(s, UNIT) for s, k, p in drive(c, it, body)]


@model('vec::from_elem')
def m_from_elem(c):
    n = c.r(1)
    if isint(n) and n.a[1] <= 16:
        return c.ret(lst(None, (c.args[0],) * n.a[1]))
    return c.ret(mk('rec', app('range', kint(0), n), lst(None, ()), frozenset([(frozenset(), lst(mk('me'), (c.args[0],)))])))


@model('Index::index', 'IndexMut::index_mut')
def m_index(c):
    import flow
    if c.info.get('local') is not None:
        return None
    root, proj = c.loc(0)
    i = c.r(1)
    t = c.ty(1)
    if flow.is_int_ty(t):
        c.e.panic(c.fr, c.span, 'index', c.st, ops=[c.e.length(c.st, c.args[0]), i])
        return c.ret(mk('ref', *c.e.at_index(c.st, root, proj, i)))
    if flow.is_adt(t, 'RangeFull'):
        return c.ret(c.args[0])
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    c.e.panic(c.fr, c.span, 'range', c.st, ops=[c.e.length(c.st, c.args[0]), i, v])
    return c.ret(app('index', v, i))


@model('slice::get', 'slice::get_mut')
def m_get(c):
    import flow
    root, proj = c.loc(0)
    i = c.r(1)
    if not flow.is_int_ty(c.ty(1)):
        return None
    n = c.e.length(c.st, c.args[0])
    mark_unsigned(i) if i.op != 'lin' else None
    if c.e.decide(c.st, cmp_int('lt', i, n)):
        return c.ret(some(mk('ref', *c.e.at_index(c.st, root, proj, i))))
    return c.ret(NONE)


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def m_first(c):
    root, proj = c.loc(0)
    n = c.e.length(c.st, c.args[0])
    if c.e.decide(c.st, cmp_int('eq', n, kint(0))):
        return c.ret(NONE)
    i = kint(0) if 'first' in c.name else add(n, kint(1), -1)
    return c.ret(some(mk('ref', root, proj + (('[]', i),))))


@model('slice::split_first')
def m_split_first(c):
    root, proj = c.loc(0)
    n = c.e.length(c.st, c.args[0])
    if c.e.decide(c.st, cmp_int('eq', n, kint(0))):
        return c.ret(NONE)
    v = c.e.resolve(c.st, c.e.read(c.st, root, proj))
    rest = app('index', v, agg('core::ops::range::RangeFrom', None, [('start', kint(1))]))
    return c.ret(some(tup(mk('ref', root, proj + (('[]', kint(0)),)), rest)))


@model('slice::contains')
def m_contains(c):
    import flow
    e = c.e
    x = c.r(1)
    it = into_iter(e, c.st, c.args[0], c.atys[0])
    et = c.info['cargs'][0] if c.info['cargs'] else None

    def body(s, y):
        out = []
        yv = e.resolve(s, y)
        b = None
        if flow.is_int_ty(et):
            b = cmp_int('eq', yv, x)
        else:
            b = cmp_eq(yv, x)
        for s2, v in e.branch(s, b):
            out.append((s2.copy(), 'brk' if v else 'cont', None))
        return out
    return [(s, kbool(k == 'brk')) for s, k, p in drive(c, it, body)]


# ------------------------------------------------------------------ iterators
def elem_ref(root, proj, i):
    return mk('ref', root, proj + (('[]', kint(i)),))


def into_iter(e, st, v, t):
    """abstract iterator over value/pointer v of (static) type t"""
    import flow
    if v.op == 'iter':
        return v
    byref = v.op == 'ref'
    tt = flow.unbox(flow.strip_refs(t)) if t else None
    isref = bool(t) and t['k'] == 'ref'
    if v.op == 'ref':
        root, proj = e.deep_loc(st, v)
        o = e.read(st, root, proj)
    else:
        root, proj = ('O', v), ()
        o = e.deep(st, v)
    if o.op == 'iter':
        return o
    if (tt and flow.is_adt(tt, 'Option')) or (o.op == 'agg' and o.a[0] == OPT):
        return mk('iter', mk('optsrc', v if byref else (mk('ref', root, proj) if isref else v)), ())
    if o.op == 'agg' and o.a[0] and flow.tyname(o.a[0]) in ('Range', 'RangeInclusive') and len(o.a[2]) >= 2:
        lo, hi = o.a[2][0][1], o.a[2][1][1]
        lo, hi = e.resolve(st, lo), e.resolve(st, hi)
        if flow.tyname(o.a[0]) == 'RangeInclusive':
            hi = add(hi, kint(1))
        return range_iter(lo, hi)
    if o.op == 'list':
        def items(lo, n, off):
            if byref or isref:
                return tuple(mk('ref', root, proj + (('[]', kint(i)),)) for i in range(n))
        if o.a[0] is None:
            if byref or isref:
                its = tuple(elem_ref(root, proj, i) for i in range(len(o.a[1])))
            else:
                its = o.a[1]
            return mk('iter', mk('seq', its), ())
        b = o.a[0]
        inner = mk('iter', mk('coll', e.resolve(st, b)), ())
        return mk('iter', mk('chain', inner, mk('iter', mk('seq', o.a[1]), ())), ())
    return mk('iter', mk('coll', e.resolve(st, o)), ())


def range_iter(lo, hi):
    if isint(lo) and isint(hi):
        n = hi.a[1] - lo.a[1]
        if 0 <= n <= 64:
            return mk('iter', mk('seq', tuple(kint(i) for i in range(lo.a[1], hi.a[1]))), ())
        if n < 0:
            return mk('iter', mk('seq', ()), ())
    return mk('iter', mk('coll', app('range', lo, hi)), ())


def stage(it, *g):
    return mk('iter', it.a[0], it.a[1] + (mk('stage', *g),))


def drive(c, it, body):
    c.e.cur_fr, c.e.cur_span = c.fr, c.span
    return c.e.consume(c.st, it, body, c.fr, c.span)


def get_iter(c, i=0):
    v = c.args[i]
    if v.op == 'ref':
        d = c.e.deep(c.st, v)
        if d.op == 'iter':
            return d
    return into_iter(c.e, c.st, v, c.atys[i] if i < len(c.atys) else None)


@model('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Iterator::by_ref', 'Vec::iter', 'Option::into_iter', 'VecDeque::iter', 'VecDeque::iter_mut')
def m_into_iter(c):
    import flow
    if c.name == 'Iterator::by_ref':
        return c.ret(c.args[0])
    v = c.args[0]
    t = c.atys[0] if c.atys else None
    if v.op == 'ref' and c.e.deep(c.st, v).op == 'iter':
        return c.ret(v)
    if c.info.get('local') is not None:
        return None
    if flow.is_adt(c.ty(0), 'Receiver'):
        if t['k'] != 'ref':
            root = ('T', c.e.newtmp())
            c.st.store[root] = v
            v = mk('ref', root, ())
        return c.ret(mk('iter', mk('forever'), (mk('stage', 'recv', 'recv', v),)))
    return c.ret(into_iter(c.e, c.st, v, t))


@model('iter::once', 'once::once')
def m_once(c):
    return c.ret(mk('iter', mk('seq', (c.args[0],)), ()))


@model('iter::repeat', 'iter::repeat_with', 'repeat::repeat', 'repeat_with::repeat_with')
def m_repeat(c):
    return c.ret(mk('iter', mk('forever'), (mk('stage', 'gen' if c.name.endswith('with') else 'const', c.args[0]),)))


@model('iter::repeat_n', 'repeat_n::repeat_n')
def m_repeat_n(c):
    return c.ret(stage(mk('iter', mk('coll', app('range', kint(0), c.r(1))), ()), 'const', c.args[0]))


@model('iter::empty', 'empty::empty')
def m_empty(c):
    return c.ret(mk('iter', mk('seq', ()), ()))


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::inspect', 'Iterator::take_while', 'Iterator::skip_while')
def m_stage(c):
    return c.ret(stage(get_iter(c), c.name.split('::')[1], c.args[1]))


@model('Iterator::flat_map')
def m_flat_map(c):
    return c.ret(stage(stage(get_iter(c), 'map', c.args[1]), 'flat'))


@model('Iterator::flatten')
def m_flatten(c):
    return c.ret(stage(get_iter(c), 'flat'))


@model('Iterator::enumerate')
def m_enum(c):
    return c.ret(stage(get_iter(c), 'enumerate'))


@model('Iterator::cloned', 'Iterator::copied')
def m_itcloned(c):
    return c.ret(stage(get_iter(c), 'deref'))


@model('Iterator::rev', 'Iterator::fuse', 'Iterator::peekable')
def m_rev(c):
    it = get_iter(c)
    if c.name.endswith('rev') and it.a[0].op == 'seq' and not it.a[1]:
        return c.ret(mk('iter', mk('seq', tuple(reversed(it.a[0].a[0]))), ()))
    if c.name.endswith('rev') and it.a[0].op == 'coll':
        coll = it.a[0].a[0]
        return c.ret(mk('iter', mk('coll', coll.a[1] if coll.op == 'app' and coll.a[0] == 'rev' else app('rev', coll)), it.a[1]))
    return c.ret(it)


def count_to(n):
    if isint(n) and n.a[1] <= 16:
        return mk('seq', tuple(kint(i) for i in range(n.a[1])))
    return mk('coll', app('range', kint(0), n))


@model('Iterator::take', 'Iterator::skip', 'Iterator::step_by')
def m_takeskip(c):
    it = get_iter(c)
    n = c.r(1)
    src = it.a[0]
    if any(g.a[0] not in ('map', 'gen', 'const', 'inspect', 'deref', 'recv', 'while_some', 'enumerate') for g in it.a[1]) and not (isint(n) and n.a[1] == 0):
        return c.ret(mk('iter', mk('coll', app(c.name.split('::')[1], it, n)), ()))
    if src.op == 'forever' and c.name.endswith('skip') and isint(n):
        root = ('T', c.e.newtmp())
        c.st.store[root] = kint(0)
        return c.ret(stage(it, 'skipped', root, n))
    if src.op == 'forever' and c.name.endswith('take'):
        return c.ret(mk('iter', count_to(n), it.a[1]))
    if src.op == 'seq' and isint(n):
        k = n.a[1]
        xs = src.a[0][:k] if c.name.endswith('take') else src.a[0][k:] if c.name.endswith('skip') else src.a[0][::k]
        return c.ret(mk('iter', mk('seq', xs), it.a[1]))
    inner = src.a[0] if src.op == 'coll' else src
    return c.ret(mk('iter', mk('coll', app(c.name.split('::')[1], inner, n)), it.a[1]))


@model('Iterator::chain')
def m_chain(c):
    return c.ret(mk('iter', mk('chain', get_iter(c), get_iter(c, 1)), ()))


@model('Iterator::zip')
def m_zip(c):
    return c.ret(mk('iter', mk('zip', get_iter(c), get_iter(c, 1)), ()))


@model('Iterator::for_each')
def m_for_each(c):
    f = c.args[1]

    def body(s, x):
        return [(s2, 'cont', None) for s2, _ in c.callv(s, f, [x])]
    return [(s, UNIT) for s, k, p in drive(c, get_iter(c), body)]


def tried(c, s, v):
    """-> [(state, the payload of Some/Ok or None, what is returned early)]"""
    import flow
    adt = OPT if flow.is_adt(c.dty, 'Option') else RES
    try:
        var = c.e.variant(s, v, adt)
    except flow.Split as e:
        out = []
        for s2, _ in c.e.branch(s, e.b):
            out += tried(c, s2.copy(), v)
        return out
    v = c.e.deep(s, v)
    if var in ('Some', 'Ok'):
        return [(s, proj_get(v, var + '.0'), None)]
    return [(s, None, NONE if var == 'None' else err(proj_get(v, 'Err.0')))]


@model('Iterator::try_for_each', 'Iterator::try_fold')
def m_try_for_each(c):
    import flow
    e = c.e
    if not flow.is_adt(c.dty, 'Option', 'Result'):
        return None
    fold = c.name.endswith('fold')
    root = ('T', e.newtmp())
    c.st.store[root] = c.args[1] if fold else UNIT
    f = c.args[2 if fold else 1]

    def body(s, x):
        out = []
        for s2, v in c.callv(s, f, [s.store[root], x] if fold else [x]):
            for s3, y, early in tried(c, s2, v):
                if y is not None and fold:
                    s3 = s3.copy()
                    s3.store[root] = y
                out.append((s3, 'cont' if y is not None else 'brk', early))
        return out
    good = some if flow.is_adt(c.dty, 'Option') else ok
    res = []
    for s, k, p in drive(c, get_iter(c), body):
        a = s.store.pop(root)
        res.append((s, p if k == 'brk' else good(a)))
    return res


@model('Iterator::map_while')
def m_map_while(c):
    return c.ret(stage(stage(get_iter(c), 'map', c.args[1]), 'while_some'))


@model('Iterator::scan')
def m_scan(c):
    root = ('T', c.e.newtmp())
    c.st.store[root] = c.args[1]
    return c.ret(stage(get_iter(c), 'scan', root, c.args[2]))


@model('from_fn::from_fn', 'iter::from_fn')
def m_iter_from_fn(c):
    import flow
    if c.dty is not None and c.dty['k'] == 'array':
        return m_array_from_fn(c)
    return c.ret(mk('iter', mk('forever'), (mk('stage', 'gen', c.args[0]), mk('stage', 'while_some'))))


@model('array::from_fn')
def m_array_from_fn(c):
    if c.dty is None or c.dty['k'] != 'array':
        return None
    try:
        n = int(c.dty['n'])
    except (TypeError, ValueError):
        return None
    if n > 16:
        return None
    cur = [(c.st, ())]
    for i in range(n):
        nxt = []
        for s, vs in cur:
            for s2, v in c.callv(s, c.args[0], [kint(i)]):
                for s3, y in c.e.concretize(s2, c.e.resolve(s2, v)):
                    nxt.append((s3.copy(), vs + (y,)))
        cur = nxt
    return [(s, lst(None, vs)) for s, vs in cur]


@model('zip::zip', 'iter::zip')
def m_iter_zip(c):
    return c.ret(mk('iter', mk('zip', get_iter(c), get_iter(c, 1)), ()))


@model('Receiver::try_iter', 'Receiver::iter')
def m_rx_iter(c):
    return c.ret(mk('iter', mk('forever'), (mk('stage', 'recv', 'try_recv' if c.name.endswith('try_iter') else 'recv', c.args[0]),)))


@model('slice::fill', 'slice::fill_with')
def m_fill(c):
    e = c.e
    gen = c.name.endswith('with')

    def body(s, x):
        out = []
        for s2, v in (c.callv(s, c.args[1], []) if gen else [(s, c.args[1])]):
            s2 = s2.copy()
            root, proj = e.deep_loc(s2, x)
            e.write(s2, root, proj, v)
            out.append((s2, 'cont', None))
        return out
    return [(s, UNIT) for s, k, p in drive(c, into_iter(e, c.st, c.args[0], c.atys[0]), body)]


@model('Cow::to_mut')
def m_cow_to_mut(c):
    return c.ret(c.args[0])


@model('String::insert_str', 'String::insert')
def m_str_insert(c):
    i = c.r(1)
    if not isint(i) or i.a[1] != 0:
        return None
    root, proj = c.loc(0)
    c.e.write(c.st, root, proj, cat([c.r(2), c.e.deep(c.st, c.e.read(c.st, root, proj))]))
    return c.ret(UNIT)


def with_acc(c, it, init, step, st=None):
    """fold: step(st, acc, x) -> [(st, acc)]"""
    e = c.e
    root = ('T', e.newtmp())
    c.st.store[root] = init

    def body(s, x):
        out = []
        for s2, a in step(s, s.store[root], x):
            s2.store[root] = a
            out.append((s2, 'cont', None))
        return out
    res = []
    for s, k, p in drive(c, it, body):
        res.append((s, s.store.pop(root)))
    return res


@model('Iterator::fold')
def m_fold(c):
    return with_acc(c, get_iter(c), c.args[1], lambda s, a, x: c.callv(s, c.args[2], [a, x]))


@model('Iterator::sum', 'Iterator::product')
def m_sum(c):
    import flow
    e = c.e
    fl = flow.is_float_ty(c.dty)
    if c.name.endswith('product'):
        return None
    z = K('float', '0.0') if fl else kint(0)

    def step(s, a, x):
        x = e.resolve(s, x)
        if fl:
            p, q = sorted((a, x), key=lambda n: n.id)
            return [(s, app('fadd', p, q))]
        return [(s, add(a, x))]
    return with_acc(c, get_iter(c), z, step)


@model('Iterator::count')
def m_count(c):
    it = get_iter(c)
    if not it.a[1] and it.a[0].op == 'coll':
        return c.ret(c.e.length(c.st, it.a[0].a[0]))
    return with_acc(c, it, kint(0), lambda s, a, x: [(s, add(a, kint(1)))])


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(c):
    import flow
    e = c.e
    if not flow.is_adt(c.dty, 'Vec', 'VecDeque', 'Box'):
        if flow.is_adt(c.dty, 'String'):
            return with_acc(c, get_iter(c), kstr(''), lambda s, a, x: [(s, cat([a, e.resolve(s, x)]))])
        return None
    it = get_iter(c)
    if not it.a[1] and it.a[0].op == 'coll' and it.a[0].a[0].op != 'app':
        return c.ret(it.a[0].a[0])

    def step(s, a, x):
        out = []
        for s2, y in e.concretize(s, e.resolve(s, x)):
            out.append((s2.copy(), append(a, [y])))
        return out
    return with_acc(c, it, lst(None, ()), step)


@model('Iterator::eq', 'Iterator::ne')
def m_iter_eq(c):
    a, b = get_iter(c), get_iter(c, 1)
    if any(x is None or x.a[1] or x.a[0].op != 'coll' for x in (a, b)):
        return None
    v = cmp_eq(a.a[0].a[0], b.a[0].a[0])
    return c.ret(v if c.name.endswith('eq') else neg(v))


@model('Iterator::any', 'Iterator::all')
def m_any(c):
    e = c.e
    want = c.name.endswith('any')

    def body(s, x):
        out = []
        for s2, b in c.callv(s, c.args[1], [x]):
            for s3, v in e.branch(s2, b):
                out.append((s3.copy(), 'brk' if v == want else 'cont', None))
        return out
    return [(s, kbool((k == 'brk') == want)) for s, k, p in drive(c, get_iter(c), body)]


@model('Iterator::find', 'Iterator::position', 'Iterator::find_map')
def m_find(c):
    e = c.e
    it = get_iter(c)
    nm = c.name.split('::')[1]

    def body(s, x):
        out = []
        if nm == 'find_map':
            for s2, v in c.callv(s, c.args[1], [x]):
                for s3, y in e.opt_cases(s2, v):
                    out.append((s3, 'cont' if y is None else 'brk', y))
            return out
        if nm == 'find':
            root = ('T', e.newtmp())
            s.store[root] = x
            arg = mk('ref', root, ())
        else:
            root, arg = None, x
        for s2, b in c.callv(s, c.args[1], [arg]):
            if root:
                s2.store.pop(root, None)
            for s3, v in e.branch(s2, b):
                pl = (x if nm == 'find' else e.index_of(x, it.a[0])) if v else None
                out.append((s3.copy(), 'brk' if v else 'cont', pl))
        return out
    return [(s, some(p) if k == 'brk' else NONE) for s, k, p in drive(c, it, body)]


@model('Iterator::max', 'Iterator::min', 'Iterator::last', 'Iterator::nth', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::size_hint',
       'Iterator::unzip', 'Iterator::partition', 'Iterator::max_by', 'Iterator::min_by', 'Iterator::reduce')
def m_itmisc(c):
    it = get_iter(c)
    return c.ret(app(c.name, it, *[c.r(i) for i in range(1, len(c.args))]))


@model('Iterator::next')
def m_next(c):
    e = c.e
    root, proj = c.loc(0)
    it = e.read(c.st, root, proj)
    if c.info.get('local') is not None and it.op != 'iter' and not e.loop_depth:
        return None
    if it.op == 'agg' and it.a[0] and it.a[0].split('::')[-1] in ('Range', 'RangeInclusive'):
        it = into_iter(e, c.st, it, None)
        e.write(c.st, root, proj, it)
    if it.op != 'iter':
        it2 = into_iter(e, c.st, c.args[0], None)
        if it2.op != 'iter':
            return None
        it = it2
        e.write(c.st, root, proj, it)
    src, stages = it.a
    outs = []

    def staged(s, x):
        """apply the adaptor stages to one element"""
        res = []
        one = mk('iter', mk('seq', (x,)), stages)

        def body(s2, y):
            return [(s2, 'brk', y)]
        for s2, k, p in e.consume(s, one, body, c.fr, c.span):
            res.append((s2, p if k == 'brk' else None))
        return res
    if src.op == 'coll' and root[0] == 'L' and not any(f >= root[1] for f in e.loop_fids):
        # not in a loop: the first element that gets through the stages
        coll = src.a[0]
        later = any(g.a[0] in ('enumerate', 'take', 'skip', 'take_while', 'skip_while', 'map_while', 'scan') for g in stages)
        if not later:
            for s, k, p in e.consume(c.st, it, lambda s2, y: [(s2, 'brk', y)], c.fr, c.span):
                s = s.copy()
                e.write(s, root, proj, mk('iter', mk('seq', ()) if k != 'brk' else mk('coll', app('skip' if not stages else 'rest', coll, kint(1))), stages))
                outs.append((s, some(p) if k == 'brk' else NONE))
            return outs
    if src.op == 'forever':
        for s, k, p in e.staged(src, stages, lambda s2, y: [(s2, 'brk', y)], c.fr, c.span)(c.st, UNIT):
            if k == 'cont':
                if not e.loop_depth:
                    return None
                s.skip = True
            outs.append((s, UNIT if k == 'cont' else NONE if k == 'stop' else some(p)))
        return outs
    if src.op == 'optsrc':
        for s, p in e.opt_has(c.st, src.a[0]):
            s = s.copy()
            if p is None:
                e.write(s, root, proj, mk('iter', mk('seq', ()), stages))
                s.flag = ('conc',)
                outs.append((s, NONE))
            else:
                e.write(s, root, proj, mk('iter', mk('seq', ()), stages))
                for s2, y in staged(s, p):
                    s2.flag = ('conc',)
                    outs.append((s2, some(y) if y is not None else NONE))
        return outs
    if src.op == 'seq':
        xs = src.a[0]
        work = [(c.st, xs)]
        while work:
            s, rest = work.pop()
            if not rest:
                s = s.copy()
                e.write(s, root, proj, mk('iter', mk('seq', ()), stages))
                s.flag = ('conc',)
                outs.append((s, NONE))
                continue
            s = s.copy()
            for s2, y in staged(s, rest[0]):
                if y is None:
                    work.append((s2, rest[1:]))
                else:
                    e.write(s2, root, proj, mk('iter', mk('seq', rest[1:]), stages))
                    s2.flag = ('conc',)
                    outs.append((s2, some(y)))
        return outs
    if src.op == 'chain':
        a, b = src.a
        if a.a[0].op == 'seq' and not a.a[0].a[0]:
            e.write(c.st, root, proj, mk('iter', b.a[0], b.a[1] + stages))
            return m_next(c)
        if a.a[0].op != 'coll' or not e.loop_depth:
            return None
        coll = a.a[0].a[0]
        s = c.st.copy()
        e.write(s, root, proj, mk('iter', b.a[0], b.a[1] + stages))
        s.flag = ('exh', coll)
        s.skip = 'phase'
        outs.append((s, UNIT))
        s = c.st.copy()
        s.flag = ('it', coll)
        xs = [(s, elem_of(coll))]
        for sg in a.a[1] and (a.a[1],) or ():
            xs = []
            for s2, k, p in e.consume(s, mk('iter', mk('seq', (elem_of(coll),)), sg), lambda s3, y: [(s3, 'brk', y)], c.fr, c.span):
                xs.append((s2, p if k == 'brk' else None))
        for s1, x in xs:
            for s2, y in (staged(s1, x) if x is not None else [(s1, None)]):
                s2.flag = ('it', coll)
                if y is None:
                    s2.skip = True
                    outs.append((s2, UNIT))
                else:
                    outs.append((s2, some(y)))
        return outs
    if src.op == 'zip':
        ca = src.a[0].a[0].a[0] if src.a[0].a[0].op == 'coll' else src.a[0]
        cb = src.a[1].a[0].a[0] if src.a[1].a[0].op == 'coll' else src.a[1]
        coll = app('zip', ca, cb)
        x = tup(elem_of(ca), elem_of(cb))
    else:
        coll = src.a[0] if src.op == 'coll' else src
        x = elem_of(coll)
        if coll.op == 'app' and coll.a[0] == 'range':
            mark_unsigned(x)
    s = c.st.copy()
    s.flag = ('exh', coll)
    outs.append((s, NONE))
    s = c.st.copy()
    s.flag = ('it', coll)
    for s2, y in staged(s, x):
        s2.flag = ('it', coll)
        if y is None:
            s2.skip = True
            outs.append((s2, UNIT))
        else:
            outs.append((s2, some(y)))
    return outs


@model('RangeInclusive::new')
def m_rangeincl(c):
    return c.ret(agg('core::ops::RangeInclusive', None, (('start', c.args[0]), ('end', c.args[1]))))


@model('RangeInclusive::contains', 'Range::contains', 'RangeBounds::contains')
def m_rcontains(c):
    import flow
    v = c.c(0)
    x = c.r(1)
    if v.op != 'agg':
        return None
    lo, hi = v.a[2][0][1], v.a[2][1][1]
    if not c.e.decide(c.st, cmp_int('ge', x, lo)):
        return c.ret(FALSE)
    return c.ret(cmp_int('le' if flow.tyname(v.a[0]) == 'RangeInclusive' else 'lt', x, hi))


# ------------------------------------------------------------------ panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::begin_panic', 'option::unwrap_failed', 'result::unwrap_failed',
       'option::expect_failed', 'panicking::assert_failed', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_explicit')
def m_panic(c):
    return []
