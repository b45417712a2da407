"""Models of the standard-library operations that appear in the analysed crate."""
import terms as tm
from terms import *
from interp import MODELS, Interp, extend, Undecided, LoopInfo
from program import strip_generics


def model(*names):
    def deco(f):
        for n in names:
            for p in ('std::', 'core::', 'alloc::'):
                if n.startswith('@'):
                    MODELS[p + n[1:]] = f
            if not n.startswith('@'):
                MODELS[n] = f
        return f
    return deco


def selfty(f):
    return f['args'][0] if f['args'] else ''


def base_ty(t):
    import re
    t = re.sub(r"^(&('\w+ )?(mut )?)+", '', t.strip())
    return t.split('<')[0].split('::')[-1]


# ------------------------------------------------------------------ pointers
@model('@ops::Deref::deref', '@ops::DerefMut::deref_mut', '@ops::deref::Deref::deref')
def m_deref(I, st, f, a):
    b = base_ty(selfty(f))
    if b in ('Ref', 'RefMut', 'Box', 'Rc', 'Arc', 'MutexGuard'):
        return [(I.loadp(st, a[0]), st)]
    return [(a[0], st)]


@model('@cell::RefCell::borrow', '@cell::RefCell::borrow_mut', '@borrow::Borrow::borrow', '@convert::AsRef::as_ref', '@vec::Vec::as_mut_slice',
       '@vec::Vec::as_slice', '@cell::RefCell::get_mut', '@cell::RefCell::into_inner', '@string::String::as_str', '@borrow::BorrowMut::borrow_mut', '@hint::must_use', 'core::str::as_bytes',
       '@boxed::Box::as_ref', '@cell::Ref::clone', '@convert::Into::into_iter', '@hint::black_box')
def m_id(I, st, f, a):
    return [(a[0], st)]


@model('@cell::RefCell::new', '@cell::Cell::new', '@rc::Rc::new', '@mem::ManuallyDrop::new')
def m_wrap(I, st, f, a):
    return [(a[0], st)]


@model('@cell::Cell::get', '@ptr::mut_ptr::read', 'std::ptr::mut_ptr::read')
def m_get(I, st, f, a):
    return [(I.loadp(st, a[0]), st)]


@model('@cell::RefCell::replace', '@mem::replace')
def m_replace(I, st, f, a):
    old = I.loadp(st, a[0])
    I.storep(st, a[0], a[1])
    return [(old, st)]


@model('@cell::Cell::set', '@ptr::mut_ptr::write')
def m_set(I, st, f, a):
    I.storep(st, a[0], a[1])
    return [(UNIT, st)]


@model('@mem::swap')
def m_swap(I, st, f, a):
    x, y = I.loadp(st, a[0]), I.loadp(st, a[1])
    I.storep(st, a[0], y)
    I.storep(st, a[1], x)
    return [(UNIT, st)]


@model('@mem::take')
def m_memtake(I, st, f, a):
    x = I.loadp(st, a[0])
    b = base_ty(selfty(f))
    I.storep(st, a[0], S('emptyvec') if b == 'Vec' else NONE if b == 'Option' else S('default', b))
    return [(x, st)]


@model('@boxed::Box::new')
def m_box(I, st, f, a):
    return [(I.alloc(st, a[0], 'box:%s' % I.cursite), st)]


@model('@boxed::Box::new_uninit')
def m_uninit(I, st, f, a):
    return [(I.alloc(st, S('uninit'), 'box:%s' % I.cursite), st)]


@model('@boxed::box_assume_init_into_vec_unsafe', '@slice::into_vec', 'core::slice::into_vec', 'alloc::slice::into_vec', 'std::slice::into_vec')
def m_boxvec(I, st, f, a):
    """vec![a, b, ..]"""
    v = I.loadp(st, a[0])
    for _ in range(3):
        if isinstance(v, Overlay) and v.a[1] and v.a[1][-1][0] and v.a[1][-1][0] == ('f', 'value'):
            v = read1(v, ('f', 'value'))
    if not (isinstance(v, Agg) and v.a[0] == 'array'):
        raise Undecided('vec! of an unknown array')
    r = S('emptyvec')
    for x in v.a[3]:
        r = S('push', r, x)
    return [(r, st)]


@model('@ptr::null_mut', '@ptr::null')
def m_null(I, st, f, a):
    return [(NULL, st)]


@model('@ptr::mut_ptr::is_null', '@ptr::const_ptr::is_null')
def m_isnull(I, st, f, a):
    return [(isnull(a[0]), st)]


@model('@clone::Clone::clone', '@borrow::ToOwned::to_owned', 'core::slice::to_vec', '@slice::to_vec', 'std::slice::to_vec')
def m_clone(I, st, f, a):
    t = selfty(f)
    v = I.loadp(st, a[0])
    return [(v, st)]


@model('@clone::Clone::clone_from')
def m_clone_from(I, st, f, a):
    I.storep(st, a[0], I.loadp(st, a[1]))
    return [(UNIT, st)]


@model('@convert::Into::into', '@convert::From::from')
def m_into(I, st, f, a):
    # user conversions are resolved to local functions and inlined
    if f.get('uid') and f['uid'] in I.prog.fns:
        return None
    # <T as Into<U>>::into with a local From<T> for U
    if len(f['args']) >= 2:
        for fn in I.prog.fns.values():
            if fn.name == 'from' and fn.trait == 'From' and base_ty(f['args'][1]) == fn.self_ty:
                if base_ty(f['args'][0]) == base_ty(fn.locals[1]['ty']):
                    return I.exec_fn(fn, a, st, 'into')
        s, t = f['args'][:2] if 'Into' in f['path'].split('::')[-2] else f['args'][1::-1]
        if base_ty(t) == 'String' and s.startswith('&') and base_ty(s.lstrip('&')) in ('str', 'String'):
            return m_clone(I, st, f, a)
    return [(a[0], st)]


# ---------------------------------------------------------------- containers
def container(I, st, p):
    return I.loadp(st, p)


def upd(I, st, p, fn):
    for g, obj, proj in I.targets(p):
        old = I.load(st, obj, proj)
        I.store(st, obj, proj, mapleaf(fn, old), TRUE if len(I.targets(p)) == 1 else g)


@model('@vec::Vec::len', 'core::slice::len', '@slice::len', '@collections::VecDeque::len', '@collections::HashSet::len', '@collections::HashMap::len', 'core::str::len', '@string::String::len',
       '@collections::vec_deque::VecDeque::len')
def m_len(I, st, f, a):
    v = I.loadp(st, a[0])
    if isinstance(v, Sym) and v.h == 'sub' and v.a[3] is None:
        return [(sub(length(v.a[1]), v.a[2]), st)]
    return [(length(v), st)]


@model('@vec::Vec::is_empty', 'core::slice::is_empty', '@collections::VecDeque::is_empty', '@collections::HashSet::is_empty', '@collections::HashMap::is_empty', 'core::str::is_empty', '@string::String::is_empty')
def m_isempty(I, st, f, a):
    return [(bnot(gt(length(I.loadp(st, a[0])), ZERO, True)), st)]


@model('@vec::Vec::new', '@vec::Vec::with_capacity', '@collections::VecDeque::with_capacity', '@collections::VecDeque::new', '@string::String::new', '@string::String::with_capacity')
def m_vecnew(I, st, f, a):
    return [(S('emptyvec'), st)]


@model('@collections::HashSet::with_capacity_and_hasher', '@collections::HashSet::with_hasher', '@collections::HashMap::with_capacity_and_hasher', '@collections::HashMap::with_hasher', '@collections::HashSet::new', '@collections::HashMap::new')
def m_setnew(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, sp=I.curt['sp'], call=f)
    return [(S('emptyset'), st)]


@model('@default::Default::default')
def m_default(I, st, f, a):
    t = selfty(f)
    b = base_ty(t)
    if b in ('f64', 'usize', 'u64', 'i32', 'f32', 'u32', 'i64'):
        return [(ZERO, st)]
    if b == 'bool':
        return [(FALSE, st)]
    if b == 'Vec':
        return [(S('emptyvec'), st)]
    if b == 'Option':
        return [(NONE, st)]
    if f.get('uid') and f['uid'] in I.prog.fns:
        return None
    return [(S('default', b), st)]


@model('@vec::from_elem', 'std::vec::from_elem')
def m_fromelem(I, st, f, a):
    return [(S('repeat', a[0], a[1]), st)]


@model('@vec::Vec::push', '@collections::VecDeque::push_back')
def m_push(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    upd(I, st, a[0], lambda v: S('push', v, a[1]))
    return [(UNIT, st)]


@model('@vec::Vec::clear', '@collections::VecDeque::clear', '@string::String::clear')
def m_clear(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    upd(I, st, a[0], lambda v: S('emptyvec'))
    return [(UNIT, st)]


@model('@collections::HashSet::clear', '@collections::HashMap::clear')
def m_sclear(I, st, f, a):
    upd(I, st, a[0], lambda v: S('emptyset'))
    return [(UNIT, st)]


@model('@vec::Vec::insert')
def m_insert(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    upd(I, st, a[0], lambda v: S('inserted', v, a[1], a[2]))
    return [(UNIT, st)]


@model('@vec::Vec::remove')
def m_remove(I, st, f, a):
    v = I.loadp(st, a[0])
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    r = idx(v, a[1])
    upd(I, st, a[0], lambda v: S('removed', v, a[1]))
    return [(r, st)]


@model('@vec::Vec::swap_remove')
def m_swap_remove(I, st, f, a):
    v = I.loadp(st, a[0])
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    r = idx(v, a[1])
    upd(I, st, a[0], lambda v: S('swap_removed', v, a[1]))
    return [(r, st)]


@model('@vec::Vec::pop', '@collections::VecDeque::pop_back', '@collections::VecDeque::pop_front', '@collections::VecDeque::push_front', '@vec::Vec::truncate')
def m_pop(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    v = I.loadp(st, a[0])
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    if nm == 'push_front':
        upd(I, st, a[0], lambda v: S('inserted', v, ZERO, a[1]))
    elif nm == 'pop_front':
        upd(I, st, a[0], lambda v: ite(gt(length(v), ZERO, True), S('removed', v, ZERO), v))
    else:
        upd(I, st, a[0], lambda v: S('poped' if nm == 'pop_back' else nm + 'ed', v, *a[1:]))
    n = length(v)
    if nm == 'pop':
        return [(ite(gt(n, ZERO, True), some(idx(v, sub(n, ONE))), NONE), st)]
    if nm == 'pop_back':
        return [(ite(gt(n, ZERO, True), some(idx(v, sub(n, ONE))), NONE), st)]
    if nm == 'pop_front':
        return [(ite(gt(n, ZERO, True), some(idx(v, ZERO)), NONE), st)]
    return [(UNIT, st)]


@model('@vec::Vec::resize')
def m_resize(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    upd(I, st, a[0], lambda v: S('resized', v, a[1], a[2]))
    return [(UNIT, st)]


@model('@vec::Vec::resize_with')
def m_resize_with(I, st, f, a):
    out = []
    for x, s in I.call_value(st, a[2], [], 'resize@' + I.cursite):
        if not (isinstance(x, Sym) and x.h in ('emptyvec', 'emptyset') or is_const(x)):
            raise Undecided('resize with values that are not constant')
        upd(I, s, a[0], lambda v: S('resized', v, a[1], x))
        out.append((UNIT, s))
    return out


@model('@iter::Extend::extend', '@vec::Vec::extend_from_slice', '@vec::Vec::append', '@vec::Vec::extend')
def m_extend(I, st, f, a):
    src = a[1]
    e = I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    it = as_iter(I, st, src)
    if f['args'] and base_ty(f['args'][0]) == 'HashSet':
        def step(s, acc, x):
            if isinstance(x, Ref):
                x = I.loadp(s, x)
            if isinstance(x, Sym) and x.h == '&':
                x = x.a[1]
            return [(S('HashSet.insert', acc, x), s, False)]
        v, info, st2 = synth_loop(I, st, it or itarg(I, st, src), step, I.loadp(st, a[0]), 'extend')
        if st2 is None:
            return []
        upd(I, st2, a[0], lambda old: v)
        return [(UNIT, st2)]
    if f['args'] and base_ty(f['args'][0]) == 'String':
        v, st2 = do_collect(I, st, it or itarg(I, st, src), byref=False)
        if st2 is None:
            return []
        e.ret = v
        upd(I, st2, a[0], lambda old: joined(old, S('flat', v, S('str', ''))))
        return [(UNIT, st2)]
    if it is not None:
        v, st2 = do_collect(I, st, it, byref=False)
        e.ret = v
        upd(I, st2, a[0], lambda old: v if isinstance(old, Sym) and old.h == 'emptyvec' else S('concat', old, v))
        return [(UNIT, st2)]
    v = I.deep(st, src)
    upd(I, st, a[0], lambda old: S('concat', old, v))
    return [(UNIT, st)]


@model('@vec::Vec::retain', '@collections::VecDeque::retain')
def m_retain(I, st, f, a):
    e = I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    v = I.loadp(st, a[0])

    def step(s, acc, x):
        c, s2 = call1(I, s, a[1], [x], 'retain')
        return [(ite(as_bool(c), S('push', acc, I.loadp(s2, x)), acc), s2, False)]
    r, info, st2 = synth_loop(I, st, it('slice', p=a[0], pos=ZERO, end=length(v), deref=FALSE), step, S('emptyvec'), 'collect')
    if st2 is None:
        return []
    upd(I, st2, a[0], lambda old: r)
    return [(UNIT, st2)]


_cb = [0]


def closure_term(I, st, clo, mk, n=1):
    """result of a pure closure applied to symbolic elements -> (term, binders); mk(binder) gives the argument value"""
    bs, args = [], []
    s = st.copy()
    s.pc = TRUE
    for i in range(n):
        _cb[0] += 1
        b = S('βc', _cb[0])
        bs.append(b)
        args.append(mk(I, s, b))
    r = I.call_value(s, clo, args, 'key@' + I.cursite)
    if len(r) != 1:
        raise Undecided('comparator')
    t = r[0][0]
    lv = -1
    for x in atoms(t):
        if x.h == 'β':
            lv = max(lv, x.a[1])
    nb = [S('β', lv + 1 + i) for i in range(n)]
    return subst(t, dict(zip(bs, nb))), nb


def boxed(f):
    """argument passed by reference"""
    def mk(I, s, b):
        return I.alloc(s, f(b), 'elem:%s:%s' % (I.cursite, rep(b)))
    return mk


def less_of(t):
    """condition under which an Ordering term is Less"""
    return isvar(t, 'Less')


@model('@slice::sort_by', 'std::slice::sort_by', 'std::slice::sort', 'std::slice::sort_unstable_by', 'std::slice::sort_by_key', 'std::slice::sort_unstable', 'core::slice::sort_unstable_by', 'core::slice::sort_unstable',
       'std::slice::sort_by_cached_key', 'core::slice::sort_unstable_by_key')
def m_sort(I, st, f, a):
    path = strip_generics(f['path'])
    I.emit(st, 'call', path, a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    key = None
    if path.endswith('_by'):
        t, bs = closure_term(I, st, a[1], boxed(lambda b: b), 2)
        key = less_of(t)
    elif len(a) > 1:
        t, (b,) = closure_term(I, st, a[1], boxed(lambda b: b), 1)
        b2 = S('β', b.a[1] + 1)
        bs = [b, b2]
        key = gt(subst(t, {b: b2}), t, False)
    else:
        et = selem(f)
        fn = [x for x in I.prog.by.get((et, 'cmp'), [])] if et else []
        if fn:
            t, bs = closure_term(I, st, S('fn', fn[0].uid, fn[0].uid), boxed(lambda b: b), 2)
            key = less_of(t)
        else:
            bs = [S('β', 0), S('β', 1)]
            key = gt(bs[1], bs[0], True)
    upd(I, st, a[0], lambda v: S('sorted', v, key, bs[0], bs[1]))
    return [(UNIT, st)]


def selem(f):
    """element type name of a slice method"""
    import re
    t = (f.get('args') or [''])[0]
    t = re.sub(r"^&('\\w+ )?(mut )?", '', t.strip('[] '))
    return t.split('<')[0].split('::')[-1]


@model('core::slice::swap', '@slice::swap')
def m_sswap(I, st, f, a):
    x = I.loadp(st, I.refto(a[0], ('i', a[1])))
    y = I.loadp(st, I.refto(a[0], ('i', a[2])))
    I.storep(st, I.refto(a[0], ('i', a[1])), y)
    I.storep(st, I.refto(a[0], ('i', a[2])), x)
    return [(UNIT, st)]


@model('core::slice::reverse')
def m_reverse(I, st, f, a):
    upd(I, st, a[0], lambda v: S('reversed', v))
    return [(UNIT, st)]


@model('@ops::Index::index', '@ops::IndexMut::index_mut', 'core::slice::get_unchecked_mut', 'core::slice::get_unchecked')
def m_index(I, st, f, a):
    i = a[1]
    if isinstance(i, Agg) and 'Range' in str(i.a[0]):
        k = i.a[0].split('::')[-1]
        if k == 'RangeFull':
            return [(a[0], st)]
        lo = agg_get(i, 'start') if 'start' in i.a[2] else ZERO
        hi = agg_get(i, 'end') if 'end' in i.a[2] else None
        if 'Inclusive' in k and hi is not None:
            hi = add(hi, ONE)
        return [(I.refto(a[0], ('sub', lo, hi)), st)]
    if base_ty(selfty(f)) in ('HashMap', 'BTreeMap'):
        i = I.deep(st, i)
    elif I.panics is True and not f['path'].split('::')[-1].startswith('get_unchecked'):
        I.abnormal(st, bnot(gt(length(I.loadp(st, a[0])), i, True)))
    return [(I.refto(a[0], ('i', i)), st)]


@model('core::slice::get', 'core::slice::get_mut', '@slice::get', '@slice::get_mut', '@vec::Vec::get', '@vec::Vec::get_mut')
def m_sget(I, st, f, a):
    n = length(I.loadp(st, a[0]))
    return [(ite(gt(n, a[1], True), some(I.refto(a[0], ('i', a[1]))), NONE), st)]


@model('core::slice::first', 'core::slice::first_mut', '@slice::first')
def m_first(I, st, f, a):
    n = length(I.loadp(st, a[0]))
    return [(ite(gt(n, ZERO, True), some(I.refto(a[0], ('i', ZERO))), NONE), st)]


@model('core::slice::last', 'core::slice::last_mut', '@slice::last')
def m_last(I, st, f, a):
    n = length(I.loadp(st, a[0]))
    return [(ite(gt(n, ZERO, True), some(I.refto(a[0], ('i', sub(n, ONE)))), NONE), st)]


@model('@collections::VecDeque::front', '@collections::VecDeque::front_mut')
def m_front(I, st, f, a):
    return m_first(I, st, f, a)


@model('@collections::VecDeque::back', '@collections::VecDeque::back_mut')
def m_back(I, st, f, a):
    return m_last(I, st, f, a)


@model('@collections::HashSet::insert', '@collections::HashSet::remove', '@collections::HashMap::insert', '@collections::HashMap::remove')
def m_setop(I, st, f, a):
    nm = strip_generics(f['path'])
    v = I.loadp(st, a[0])
    rest = tuple(I.deep(st, x) for x in a[1:])
    I.emit(st, 'call', nm, a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    kind = nm.split('::')[-2] + '.' + nm.split('::')[-1]
    upd(I, st, a[0], lambda v: S(kind, v, *rest))
    return [(S('ret.' + kind, v, *rest), st)]


@model('@collections::HashSet::contains', '@collections::HashMap::contains_key', 'core::slice::contains', '@slice::contains')
def m_contains(I, st, f, a):
    v = I.loadp(st, a[0])
    if strip_generics(f['path']).endswith('slice::contains') and f['args'] and f['args'][0] in ('usize', 'u64', 'u32', 'u8', 'isize', 'i64', 'i32'):
        x = I.loadp(st, a[1])
        n, c, body, b = body_of(v)
        b1 = S('β', I_beta(tup(body, x, c)))
        hit = subst(band(c, eq(body, x)), {b: b1})
        return [(bnot(mt(S('all', n, bnot(hit), b1), TRUE, FALSE)), st)]
    return [(S('contains', v, I.deep(st, a[1])), st)]


@model('@collections::HashMap::get', '@collections::HashMap::get_mut')
def m_mapget(I, st, f, a):
    k = I.deep(st, a[1])
    v = I.loadp(st, a[0])
    return [(ite(mt(S('b', S('contains', v, k)), TRUE, FALSE), some(I.refto(a[0], ('i', k))), NONE), st)]


@model('@collections::HashMap::entry')
def m_entry(I, st, f, a):
    return [(agg('entry', None, ('m', 'k'), (a[0], a[1])), st)]


@model('@collections::hash_map::Entry::or_insert', '@collections::hash_map::Entry::or_insert_with', '@collections::hash_map::Entry::or_default',
       '@collections::hash_map::Entry::and_modify')
def m_orinsert(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    e = a[0]
    if not (isinstance(e, Agg) and e.a[0] == 'entry'):
        raise Undecided('entry of a map that is not known')
    m, key = agg_get(e, 'm'), I.deep(st, agg_get(e, 'k'))
    k = S('&', key)
    v = I.loadp(st, m)
    has = mt(S('b', S('contains', v, k)), TRUE, FALSE)
    slot = I.refto(m, ('i', k))
    if nm == 'and_modify':
        def change(s):
            return [(e, s2) for _, s2 in I.call_value(s, a[1], [slot], 'modify@' + I.cursite)]
        return opt_join(I, st, has, change, lambda s: [(e, s)])

    def absent(s):
        out = []
        if nm == 'or_insert':
            rs = [(a[1], s)]
        elif nm == 'or_default':
            t = (f['args'] or ['?'])[-1]
            t = base_ty(t)
            if t not in ('Vec', 'VecDeque', 'usize', 'u64', 'i64', 'u32', 'i32', 'f64'):
                raise Undecided('default of ' + str(t))
            rs = [(S('emptyvec') if t.startswith('Vec') else ZERO, s)]
        else:
            rs = I.call_value(s, a[1], [], 'orinsert@' + I.cursite)
        for x, s2 in rs:
            upd(I, s2, m, lambda w: S('HashMap.insert', w, key, I.deep(s2, x)))
            out.append((slot, s2))
        return out
    return opt_join(I, st, has, lambda s: [(slot, s)], absent)


# --------------------------------------------------------- Option and Result
def fork_some(I, st, v):
    """guard under which v is Some/Ok, and the payload"""
    nm = 'Some'
    for x in leafset(v):
        if isinstance(x, Agg) and x.a[0] == 'core::result::Result':
            nm = 'Ok'
        if isinstance(x, Sym) and x.h in ('resultof',):
            nm = 'Ok'
    g = isvar(v, nm)
    pay = mapleaf(lambda x: payload(x, nm), v)
    return g, restrict(pay, g), nm


def payload(x, nm):
    if isinstance(x, Agg):
        return x.a[3][0] if x.a[1] == nm and x.a[3] else BOT
    return read1(read1(x, ('d', nm)), ('f', '0'))


@model('@option::Option::unwrap', '@option::Option::expect', '@result::Result::unwrap', '@result::Result::expect')
def m_unwrap(I, st, f, a):
    nm = 'Some' if 'option' in f['path'] else 'Ok'
    v = a[0]
    g = isvar(v, nm)
    pay = restrict(mapleaf(lambda x: payload(x, nm), v), g)
    if g is not TRUE:
        I.emit(st, 'panic', strip_generics(f['path']), a, sp=I.curt['sp'])
        I.abnormal(st, bnot(g))
    if g is FALSE:
        return []
    return [(pay, st)]


@model('@option::Option::is_some', '@option::Option::is_none', '@result::Result::is_ok', '@result::Result::is_err')
def m_issome(I, st, f, a):
    v = I.loadp(st, a[0])
    nm = f['path'].split('::')[-1]
    g = isvar(v, 'Some' if nm in ('is_some', 'is_none') else 'Ok')
    return [(g if nm in ('is_some', 'is_ok') else bnot(g), st)]


@model('@option::Option::as_ref', '@option::Option::as_mut', '@option::Option::as_deref')
def m_asref(I, st, f, a):
    v = I.loadp(st, a[0])
    g = isvar(v, 'Some')
    return [(ite(g, some(I.refto(a[0], ('d', 'Some'), ('f', '0'))), NONE), st)]


@model('@option::Option::take')
def m_take(I, st, f, a):
    v = I.loadp(st, a[0])
    I.storep(st, a[0], NONE)
    return [(v, st)]


@model('@result::Result::unwrap_or', '@result::Result::unwrap_or_else', '@result::Result::and_then', '@result::Result::unwrap_or_default', '@result::Result::map_or', '@result::Result::is_ok_and',
       '@option::Option::map', '@result::Result::map', '@option::Option::map_or', '@option::Option::map_or_else', '@option::Option::and_then', '@option::Option::unwrap_or', '@option::Option::unwrap_or_else',
       '@option::Option::cloned', '@option::Option::copied', '@option::Option::is_some_and', '@option::Option::unwrap_or_default')
def m_omap(I, st, f, a):
    nm = f['path'].split('::')[-1]
    vn = 'Some' if 'option' in f['path'] else 'Ok'
    v = a[0]
    g = isvar(v, vn)
    pay = restrict(mapleaf(lambda x: payload(x, vn), v), g)
    if nm == 'unwrap_or':
        return [(ite(g, pay, a[1]), st)]
    if nm in ('cloned', 'copied'):
        return [(ite(g, some(I.loadp(st, pay)), NONE) if g is not FALSE else NONE, st)]
    clo = a[-1] if nm != 'unwrap_or_else' else None
    if nm == 'unwrap_or_else':
        errs = [restrict(mapleaf(lambda x: payload(x, 'Err'), v), bnot(g))] if vn == 'Ok' else []
        return opt_join(I, st, g, lambda s: [(pay, s)], lambda s: I.call_value(s, a[1], errs, 'orelse@' + I.cursite))
    if nm == 'unwrap_or_default':
        return [(ite(g, pay, S('default', 'T')), st)]

    def then(s):
        rs = I.call_value(s, clo, [pay], 'map@' + I.cursite)
        if nm == 'map':
            return [(some(r) if vn == 'Some' else ok(r), s2) for r, s2 in rs]
        return rs

    def other(s):
        if nm == 'map_or':
            return [(a[1], s)]
        if nm == 'map_or_else':
            return I.call_value(s, a[1], [], 'mapelse@' + I.cursite)
        if nm in ('is_some_and', 'is_ok_and'):
            return [(FALSE, s)]
        if vn == 'Ok':
            return [(mapleaf(lambda x: x, v), s)]
        return [(NONE, s)]
    return opt_join(I, st, g, then, other)


@model('@option::Option::or', '@option::Option::or_else', '@option::Option::xor', '@option::Option::ok_or', '@option::Option::ok_or_else', '@option::Option::is_none_or', '@option::Option::get_or_insert',
       '@option::Option::get_or_insert_with', '@option::Option::insert')
def m_oror(I, st, f, a):
    nm = f['path'].split('::')[-1]
    if nm == 'insert':
        I.storep(st, a[0], some(a[1]))
        return [(I.refto(a[0], ('d', 'Some'), ('f', '0')), st)]
    if nm.startswith('get_or_insert'):
        slot = I.refto(a[0], ('d', 'Some'), ('f', '0'))

        def fill(s):
            out = []
            for x, s2 in ([(a[1], s)] if nm == 'get_or_insert' else I.call_value(s, a[1], [], 'getorinsert@' + I.cursite)):
                I.storep(s2, a[0], some(x))
                out.append((slot, s2))
            return out
        return opt_join(I, st, isvar(I.loadp(st, a[0]), 'Some'), lambda s: [(slot, s)], fill)
    v = a[0]
    g = isvar(v, 'Some')
    pay = restrict(mapleaf(lambda x: payload(x, 'Some'), v), g)
    bad = lambda x: agg('core::result::Result', 'Err', ('0',), (x,))
    if nm == 'or':
        return [(ite(g, v, a[1]), st)]
    if nm == 'xor':
        g2 = isvar(a[1], 'Some')
        return [(ite(g, ite(g2, NONE, v), a[1]), st)]
    if nm == 'ok_or':
        return [(ite(g, ok(pay), bad(a[1])), st)]
    if nm == 'is_none_or':
        return opt_join(I, st, g, lambda s: I.call_value(s, a[1], [pay], 'noneor@' + I.cursite), lambda s: [(TRUE, s)])
    if nm == 'or_else':
        return opt_join(I, st, g, lambda s: [(restrict(v, g), s)], lambda s: I.call_value(s, a[1], [], 'orelse@' + I.cursite))
    return opt_join(I, st, g, lambda s: [(ok(pay), s)], lambda s: [(bad(x), s2) for x, s2 in I.call_value(s, a[1], [], 'okor@' + I.cursite)])


@model('core::bool::then')
def m_boolthen(I, st, f, a):
    g = as_bool(a[0])
    return opt_join(I, st, g, lambda s: [(some(x), s2) for x, s2 in I.call_value(s, a[1], [], 'then@' + I.cursite)], lambda s: [(NONE, s)])


@model('@result::Result::map_err')
def m_maperr(I, st, f, a):
    v = a[0]
    g = isvar(v, 'Ok')
    e = restrict(mapleaf(lambda x: payload(x, 'Err'), v), bnot(g))
    return opt_join(I, st, g, lambda s: [(restrict(v, g), s)],
                    lambda s: [(agg('core::result::Result', 'Err', ('0',), (r,)), s2) for r, s2 in I.call_value(s, a[1], [e], 'maperr@' + I.cursite)])


def opt_join(I, st, g, then, other):
    if g is TRUE:
        return then(st)
    if g is FALSE:
        return other(st)
    if I.mode == 'fork':
        out = []
        for s in I.assume_fork(st, g):
            out += then(s)
        for s in I.assume_fork(st, bnot(g)):
            out += other(s)
        return out
    s1, s2 = st.copy(), st.copy()
    s1.pc = band(st.pc, g)
    s2.pc = band(st.pc, bnot(g))
    tmp = ('L', I.stack[-1], 'opt@' + I.cursite)
    res = []
    for r, s in (then(s1) if s1.pc is not FALSE else []) + (other(s2) if s2.pc is not FALSE else []):
        s.mem[tmp] = r
        res.append(s)
    if not res:
        return []
    j = I.join(res)
    r = j.mem.pop(tmp)
    return [(r, j)]


@model('@result::Result::ok')
def m_ok(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, sp=I.curt['sp'], call=f)
    v = a[0]
    g = isvar(v, 'Ok')
    return [(ite(g, some(restrict(mapleaf(lambda x: payload(x, 'Ok'), v), g)), NONE), st)]


@model('@ops::Try::branch')
def m_branch(I, st, f, a):
    v = a[0]
    nm = 'Some' if base_ty(selfty(f)) == 'Option' else 'Ok'
    g = isvar(v, nm)
    pay = restrict(mapleaf(lambda x: payload(x, nm), v), g)
    cont = agg('core::ops::ControlFlow', 'Continue', ('0',), (pay,))
    brk = agg('core::ops::ControlFlow', 'Break', ('0',), (restrict(v, bnot(g)),))
    return [(ite(g, cont, brk), st)]


@model('@ops::FromResidual::from_residual')
def m_residual(I, st, f, a):
    return [(a[0], st)]


# ------------------------------------------------------------------- numbers
@model('core::f64::max', 'std::f64::max', '@cmp::Ord::max', '@cmp::max', 'core::f32::max')
def m_max(I, st, f, a):
    return [(fmax(a[0], a[1]), st)]


@model('core::f64::min', 'std::f64::min', '@cmp::Ord::min', '@cmp::min')
def m_min(I, st, f, a):
    return [(fmin(a[0], a[1]), st)]


@model('core::f64::clamp', '@cmp::Ord::clamp')
def m_clamp(I, st, f, a):
    return [(fmin(fmax(a[0], a[1]), a[2]), st)]


@model('core::f64::abs', 'std::f64::abs')
def m_abs(I, st, f, a):
    return [(fmax(a[0], neg(a[0])), st)]


@model('core::f64::is_infinite', 'core::f64::is_finite', 'core::f64::is_nan', 'std::f64::is_infinite', 'std::f64::is_finite', 'std::f64::is_nan')
def m_isinf(I, st, f, a):
    v = I.loadp(st, a[0]) if isinstance(a[0], Ref) else a[0]
    if f['path'].endswith('is_nan'):
        return [(FALSE, st)]        # numbers are finite or infinite, which the comparisons assume as well
    b = mapleaf(lambda x: (TRUE if x.a[1] in ('inf', '-inf') else FALSE) if isinstance(x, Sym) and x.h == 'f64'
                else FALSE if is_const(x) else mt(S('isinf', x), TRUE, FALSE), v)
    return [(bnot(b) if f['path'].endswith('is_finite') else b, st)]


def powi(x, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, x)
    return r


@model('std::f64::powi', 'core::f64::powi')
def m_powi(I, st, f, a):
    if is_const(a[1]) and 0 <= cval(a[1]) <= 4:
        return [(powi(a[0], int(cval(a[1]))), st)]
    return [(mapleaf(lambda x, y: S('pow', x, y), a[0], a[1]), st)]


@model('std::f64::powf', 'core::f64::powf')
def m_powf(I, st, f, a):
    if is_const(a[1]) and cval(a[1]).denominator == 1 and 0 <= cval(a[1]) <= 4:
        return [(powi(a[0], int(cval(a[1]))), st)]
    return [(mapleaf(lambda x, y: S('pow', x, y), a[0], a[1]), st)]


for _n in ('sqrt', 'exp', 'ln', 'round', 'floor', 'ceil', 'trunc', 'log10', 'sin', 'cos'):
    def _mk(n):
        def m(I, st, f, a):
            return [(mapleaf(lambda x: S(n, x), a[0]), st)]
        return m
    MODELS['std::f64::' + _n] = _mk(_n)
    MODELS['core::f64::' + _n] = _mk(_n)
for _n in ('atan2', 'hypot', 'rem_euclid'):
    def _mk2(n):
        def m(I, st, f, a):
            return [(mapleaf(lambda x, y: S(n, x, y), a[0], a[1]), st)]
        return m
    MODELS['std::f64::' + _n] = _mk2(_n)
    MODELS['core::f64::' + _n] = _mk2(_n)
    MODELS['core::num::' + _n] = _mk2(_n)


@model('core::num::pow')
def m_ipow(I, st, f, a):
    if is_const(a[1]) and 0 <= cval(a[1]) <= 4:
        return [(powi(a[0], int(cval(a[1]))), st)]
    return None


@model('core::num::saturating_sub')
def m_satsub(I, st, f, a):
    return [(fmax_int(sub(a[0], a[1]), ZERO), st)]


def fmax_int(a, b):
    return ite(gt(a, b, True), a, b)


@model('core::num::saturating_add', 'core::num::checked_sub', 'core::num::checked_add', 'core::num::abs_diff', 'core::num::saturating_mul', 'core::f64::mul_add', 'std::f64::mul_add',
       'core::f64::recip', 'std::f64::recip')
def m_numops(I, st, f, a):
    nm = f['path'].split('::')[-1]
    x, y = a[0], a[1] if len(a) > 1 else None
    if nm == 'saturating_add':
        return [(add(x, y), st)]
    if nm == 'saturating_mul':
        return [(mul(x, y), st)]
    if nm == 'checked_add':
        return [(some(add(x, y)), st)]
    if nm == 'checked_sub':
        return [(ite(gt(y, x, True), NONE, some(sub(x, y))), st)]
    if nm == 'abs_diff':
        return [(ite(gt(y, x, True), sub(y, x), sub(x, y)), st)]
    if nm == 'mul_add':
        return [(add(mul(x, y), a[2]), st)]
    return [(div(ONE, x, False), st)]


@model('core::slice::fill', '@slice::fill')
def m_fill(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    upd(I, st, a[0], lambda v: S('repeat', a[1], length(v)))
    return [(UNIT, st)]


@model('core::num::wrapping_add')
def m_wadd(I, st, f, a):
    return [(add(a[0], a[1]), st)]


def textof(I, st, x):
    for _ in range(6):
        if isinstance(x, Ref):
            x = I.load(st, x.a[0], x.a[1])
        elif isinstance(x, Sym) and x.h == '&':
            x = x.a[1]
        else:
            break
    return x


def joined(old, x):
    """a text and what follows it"""
    if isinstance(x, MT):
        return mapleaf(lambda y: joined(old, y), x)
    if isinstance(x, Sym) and x.h == 'str':
        for c in x.a[1]:
            old = S('push', old, S('str', c))
        return old
    if isinstance(x, Sym) and x.h == 'emptyvec':
        return old
    if isinstance(x, Poly):
        return S('push', old, charof(x))
    if isinstance(old, Sym) and old.h == 'emptyvec':
        return x
    return S('concat', old, x)


def charof(c):
    return S('str', chr(int(cval(c)))) if is_const(c) else c


@model('@ops::Add::add', '@ops::Sub::sub', '@ops::Mul::mul', '@ops::Div::div', '@ops::Neg::neg')
def m_arith(I, st, f, a):
    if f.get('uid') and f['uid'] in I.prog.fns:
        return None
    if base_ty(f['args'][0]) == 'String':
        return [(joined(I.loadp(st, a[0]) if is_refty(f['args'][0]) else a[0], textof(I, st, a[1])), st)]
    a = [I.loadp(st, x) if is_refty(t) else x for x, t in zip(a, f['args'] + [''])]
    op = f['path'].split('::')[-1]
    if op == 'neg':
        return [(neg(a[0]), st)]
    return [({'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1]) if op != 'div' else div(a[0], a[1], base_ty(f['args'][0]) != 'f64'), st)]


@model('@ops::AddAssign::add_assign', '@ops::SubAssign::sub_assign', '@ops::MulAssign::mul_assign')
def m_arithassign(I, st, f, a):
    if f.get('uid') and f['uid'] in I.prog.fns:
        return None
    if base_ty(f['args'][0]) == 'String':
        I.storep(st, a[0], joined(I.loadp(st, a[0]), textof(I, st, a[1])))
        return [(UNIT, st)]
    b = I.loadp(st, a[1]) if len(f['args']) > 1 and is_refty(f['args'][1]) else a[1]
    op = {'add_assign': add, 'sub_assign': sub, 'mul_assign': mul}[f['path'].split('::')[-1]]
    I.storep(st, a[0], op(I.loadp(st, a[0]), b))
    return [(UNIT, st)]


def is_refty(t):
    return t.strip().startswith('&')


def strip_refs(I, st, p, ty):
    """PartialEq/PartialOrd take &Self; follow the further references in Self"""
    v = I.loadp(st, p)
    t = ty.strip()
    while t.startswith('&'):
        v = I.loadp(st, v)
        t = t[1:].strip()
        import re
        t = re.sub(r"^('\w+ )?(mut )?", '', t)
    return v, t


PRIMS = {'f64', 'usize', 'u64', 'i32', 'u32', 'i64', 'u8', 'isize', 'u16', 'f32'}


def cmp_operands(I, st, f, a):
    x, t = strip_refs(I, st, a[0], f['args'][0])
    y, _ = strip_refs(I, st, a[1], f['args'][1] if len(f['args']) > 1 else f['args'][0])
    return x, y, t


def local_cmp(I, st, t, names, x, y):
    """the repository's own comparison of a type -> (name, result) or None"""
    if t in PRIMS or not t:
        return None
    from program import short_ty
    for n in names:
        for g in I.prog.by.get((short_ty(t), n), []):
            if g.trait in ('PartialEq', 'PartialOrd', 'Ord') and not g.d['derived'] and not g.closure_parent:
                px, py = I.alloc(st, x, 'cmpl:' + I.cursite), I.alloc(st, y, 'cmpr:' + I.cursite)
                r = I.exec_fn(g, [px, py], st, '%s@cmp' % n)
                if len(r) == 1 and r[0][1] is st or len(r) == 1:
                    return n, r[0][0]
    return None


@model('@cmp::PartialEq::eq', '@cmp::PartialEq::ne')
def m_eq(I, st, f, a):
    if f.get('uid') and f['uid'] in I.prog.fns and not I.prog.fns[f['uid']].d['derived']:
        return None
    x, y, t = cmp_operands(I, st, f, a)
    if base_ty(t) in ('str', 'String'):
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Sym) and (p.h == '*' and isinstance(p.a[1], Sym) and p.a[1].h == 'str' and p.a[1].a[1] == '' or p.h == 'str' and p.a[1] == ''):
                r = bnot(gt(length(q), ZERO, True))
                return [(r if f['path'].endswith('::eq') else bnot(r), st)]
    r = local_cmp(I, st, t, ('eq',), x, y)
    r = r[1] if r else eq(x, y, t)
    return [(r if f['path'].endswith('::eq') else bnot(r), st)]


@model('@ptr::eq', '@ptr::addr_eq')
def m_ptreq(I, st, f, a):
    return [(I.binop('Eq', a[0], a[1], '*mut ()'), st)]


@model('@cmp::PartialOrd::lt', '@cmp::PartialOrd::gt', '@cmp::PartialOrd::le', '@cmp::PartialOrd::ge')
def m_ord(I, st, f, a):
    if f.get('uid') and f['uid'] in I.prog.fns and not I.prog.fns[f['uid']].d['derived']:
        return None
    x, y, t = cmp_operands(I, st, f, a)
    isint = t in PRIMS and not t.startswith('f')
    op = f['path'].split('::')[-1]
    if t == 'log::Level' or 'log::Level' in f['args'][0]:
        return [(FALSE, st)]
    lc = local_cmp(I, st, t, ('partial_cmp',), x, y)
    if lc:
        o = lc[1]
        o = mapleaf(lambda v: v.a[3][0] if isinstance(v, Agg) and v.a[3] else S('unwrap', v), o)
        less, gr = isvar(o, 'Less'), isvar(o, 'Greater')
        return [({'lt': less, 'gt': gr, 'le': bnot(gr), 'ge': bnot(less)}[op], st)]
    r = {'lt': lambda: gt(y, x, isint), 'gt': lambda: gt(x, y, isint), 'le': lambda: bnot(gt(x, y, isint)), 'ge': lambda: bnot(gt(y, x, isint))}[op]()
    return [(r, st)]


def ordering(x, y, isint):
    L, E, G = (agg('core::cmp::Ordering', n, (), ()) for n in ('Less', 'Equal', 'Greater'))
    return ite(gt(y, x, isint), L, ite(gt(x, y, isint), G, E))


@model('@cmp::PartialOrd::partial_cmp', '@cmp::Ord::cmp', 'core::f64::total_cmp')
def m_pcmp(I, st, f, a):
    if f.get('uid') and f['uid'] in I.prog.fns and not I.prog.fns[f['uid']].d['derived']:
        return None
    if f['path'].endswith('total_cmp'):
        return [(ordering(I.loadp(st, a[0]), I.loadp(st, a[1]), False), st)]
    x, y, t = cmp_operands(I, st, f, a)
    isint = t in PRIMS and not t.startswith('f')
    lc = local_cmp(I, st, t, (f['path'].split('::')[-1],), x, y)
    if lc:
        return [(lc[1], st)]
    o = ordering(x, y, isint)
    return [(some(o) if f['path'].endswith('partial_cmp') else o, st)]


@model('core::cmp::Ordering::reverse', 'std::cmp::Ordering::reverse')
def m_orev(I, st, f, a):
    m = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
    return [(mapleaf(lambda x: agg(x.a[0], m[x.a[1]], (), ()) if isinstance(x, Agg) else S('rev', x), a[0]), st)]


@model('core::bool::then_some')
def m_thensome(I, st, f, a):
    return [(ite(as_bool(a[0]), some(a[1]), NONE), st)]


# approximate comparison: one literal family, so that negations and mirrored
# forms coincide; the definitions themselves are checked separately
def approx(I, st, f, a):
    nm = f['path'].split('::')[-1]
    x = I.loadp(st, a[0])
    y = a[1]
    t = f['args'][1] if len(f['args']) > 1 else ''
    if t.strip().startswith('&'):
        y = I.loadp(st, y)
    if nm == 'approx_gt':
        r = gt(x, y, kind='agt')
    elif nm == 'approx_lt':
        r = gt(y, x, kind='agt')
    elif nm == 'approx_lte':
        r = bnot(gt(x, y, kind='agt'))
    elif nm == 'approx_gte':
        r = bnot(gt(y, x, kind='agt'))
    else:
        r = band(bnot(gt(x, y, kind='agt')), bnot(gt(y, x, kind='agt')))
    return [(r, st)]


for _n in ('approx_lt', 'approx_lte', 'approx_gt', 'approx_gte', 'approx_eq'):
    MODELS[_n] = approx


# ----------------------------------------------------------------- iterators
def is_iter(v):
    return isinstance(v, Agg) and isinstance(v.a[0], str) and (v.a[0].startswith('it:') or v.a[0].split('::')[-1] in ('Range', 'RangeInclusive'))


def it(kind, **kw):
    names = tuple(kw)
    return agg('it:' + kind, None, names, tuple(kw[n] for n in names))


def as_iter(I, st, v, ty=''):
    if is_iter(v):
        return v
    if isinstance(v, Ref):
        inner = I.loadp(st, v)
        if is_iter(inner):
            return it('byref', p=v)
        return it('slice', p=v, pos=ZERO, end=length(inner), deref=FALSE)
    if isinstance(v, Sym) and v.h in ('vecof', 'push', 'emptyvec', 'repeat', 'sorted', 'filtered', 'resized', 'concat', 'phiseq'):
        return it('val', v=v, pos=ZERO, end=length(v))
    if isinstance(v, Agg) and v.a[0] == 'array':
        return it('val', v=v, pos=ZERO, end=length(v))
    return None


@model('@collections::HashMap::iter_mut', '@collections::HashMap::iter', '@collections::HashMap::keys', '@collections::HashMap::values', '@collections::HashMap::values_mut')
def m_hmapiter(I, st, f, a):
    """entries in an unknown but fixed order; the values are the places map[key]"""
    I.emit(st, 'hashiter', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    v = I.loadp(st, a[0])
    return [(it('hmap', p=a[0], v=v, pos=ZERO, end=S('streamlen', v), m=S('str', f['path'].split('::')[-1])), st)]


@model('@collections::HashSet::iter', '@collections::HashSet::drain')
def m_hsetiter(I, st, f, a, own=False):
    """members in an unknown but fixed order"""
    I.emit(st, 'hashiter', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    v = a[0] if own else I.loadp(st, a[0])
    own = own or f['path'].endswith('drain')
    if f['path'].endswith('drain'):
        I.storep(st, a[0], S('emptyset'))
    return [(it('hset', v=v, pos=ZERO, end=ZERO if isinstance(v, Sym) and v.h == 'emptyset' else S('streamlen', v), own=TRUE if own else FALSE), st)]


@model('core::slice::iter', 'core::slice::iter_mut', '@slice::iter', '@slice::iter_mut', '@collections::VecDeque::iter')
def m_iter(I, st, f, a):
    return [(it('slice', p=a[0], pos=ZERO, end=length(I.loadp(st, a[0])), deref=FALSE), st)]


@model('@iter::IntoIterator::into_iter')
def m_intoiter(I, st, f, a):
    t = selfty(f).strip()
    v = a[0]
    if is_iter(v):
        return [(v, st)]
    if t.startswith('&'):
        inner = I.loadp(st, v)
        if is_iter(inner):
            return [(it('byref', p=v), st)]
        if 'HashMap<' in t.split(' ')[-1][:40] or base_ty(t.lstrip('&').replace('mut ', '')) == 'HashMap':
            return m_hmapiter(I, st, {'path': 'std::collections::HashMap::iter'}, a)
        if base_ty(t.lstrip('&').replace('mut ', '')) == 'HashSet':
            return m_hsetiter(I, st, {'path': 'std::collections::HashSet::iter'}, a)
        return [(it('slice', p=v, pos=ZERO, end=length(inner), deref=FALSE), st)]
    b = base_ty(t)
    if b == 'HashSet':
        return m_hsetiter(I, st, {'path': 'std::collections::HashSet::into_iter'}, a, True)
    if b in ('Vec', 'HashSet', 'HashMap', 'VecDeque', 'Option') or t.startswith('['):
        return [(it('val', v=v, pos=ZERO, end=length(v)), st)]
    return [(it('opaque', v=v, pos=ZERO), st)]


def other_iter(I, st, f, v):
    """the iterator made of the second argument of zip or chain"""
    o = as_iter(I, st, v)
    if o is None and len(f['args']) > 1 and base_ty(f['args'][1]) in ('Vec', 'VecDeque', 'Option'):
        o = m_intoiter(I, st, {'path': f['path'], 'args': [f['args'][1]]}, [v])[0][0]
    return o or it('opaque', v=v, pos=ZERO)


def adaptor(kind):
    def m(I, st, f, a):
        src = as_iter(I, st, a[0]) or it('opaque', v=a[0], pos=ZERO)
        if kind == 'enumerate':
            return [(it('enum', i=src, off=index_of(src), cnt=ZERO), st)]
        if kind in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'inspect', 'map_while'):
            return [(it(kind, i=src, f=a[1], site=S('str', I.cursite)), st)]
        if kind == 'skip':
            if src.a[0] in ('it:slice', 'it:val'):
                return [(agg_set(src, 'pos', add(agg_get(src, 'pos'), a[1])), st)]
            return [(it('opaque', v=S('skip', src, a[1]), pos=ZERO), st)]
        if kind == 'take':
            return [(it('take', i=src, n=a[1], cnt=ZERO), st)]
        if kind == 'zip':
            o = other_iter(I, st, f, a[1])
            return [(it('zip', a=src, b=o), st)]
        if kind in ('copied', 'cloned'):
            return [(it('copied', i=src), st)]
        if kind == 'rev':
            return [(it('rev', i=src), st)]
        if kind == 'chain':
            o = other_iter(I, st, f, a[1])
            if it_count(src) is not None and it_count(o) is not None:
                return [(it('chain', a=src, b=o, pos=ZERO), st)]
            return [(it('opaque', v=S('chain', src, o), pos=ZERO), st)]
        if kind in ('flatten', 'flat_map'):
            # the inner lists are joined at once: the functions involved have no effects worth ordering
            def step(s, acc, x):
                if kind == 'flat_map':
                    x, s = call1(I, s, a[1], [x], 'flat_map')
                inner = as_iter(I, s, x)
                if inner is None:
                    raise Undecided('flattened items of unknown kind')

                def push(s2, acc2, y):
                    return [(S('push', acc2, I.deep(s2, y)), s2, False)]
                r, _, s = synth_loop(I, s, inner, push, acc, 'flat')
                return [(r, s, False)] if s is not None else []
            v, _, st2 = synth_loop(I, st, src, step, S('emptyvec'), 'flatten')
            if st2 is None:
                return []
            return [(it('val', v=v, pos=ZERO, end=length(v)), st2)]
        if kind == 'peekable' or kind == 'by_ref' or kind == 'fuse':
            return [(src, st)]
        return [(it('opaque', v=S(kind, src, *a[1:]), pos=ZERO), st)]
    return m


for _n in ('enumerate', 'map', 'filter', 'filter_map', 'take_while', 'skip_while', 'skip', 'take', 'zip', 'copied', 'cloned', 'rev', 'chain', 'flatten', 'flat_map', 'inspect', 'fuse', 'step_by', 'map_while'):
    MODELS['std::iter::Iterator::' + _n] = adaptor(_n)
    MODELS['core::iter::Iterator::' + _n] = adaptor(_n)


@model('lazysort::SortedBy::sorted_by')
def m_lazysorted(I, st, f, a):
    src = itarg(I, st, a[0])
    I.emit(st, 'call', 'lazysort::SortedBy::sorted_by', a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)

    def step(s, acc, x):
        return [(S('push', acc, I.deep(s, x)), s, False)]
    acc, info, s = synth_loop(I, st, src, step, S('emptyvec'), 'collect')
    if s is None:
        return []
    t, bs = closure_term(I, s, a[1], boxed(lambda b: b), 2)
    v = S('sorted', acc, less_of(t), bs[0], bs[1])
    return [(it('val', v=v, pos=ZERO, end=length(v)), s)]


@model('std::ops::RangeInclusive::new', 'core::ops::RangeInclusive::new')
def m_rangeincl(I, st, f, a):
    return [(agg('core::ops::Range', None, ('start', 'end'), (a[0], add(a[1], ONE))), st)]


def index_of(src):
    k = src.a[0].split('::')[-1]
    if k in ('it:slice', 'it:val', 'it:hmap', 'it:hset', 'it:chain'):
        return agg_get(src, 'pos')
    if k == 'Range':
        return agg_get(src, 'start')
    if k in ('it:map', 'it:copied', 'it:enum'):
        return index_of(agg_get(src, 'i'))
    if k == 'it:zip':
        return index_of(agg_get(src, 'a'))
    return None


def it_count(src):
    """number of items an indexable iterator still has; None when not indexable"""
    k = src.a[0].split('::')[-1] if isinstance(src, Agg) else ''
    if k in ('it:slice', 'it:val', 'it:hset', 'it:hmap'):
        return sub(agg_get(src, 'end'), agg_get(src, 'pos'))
    if k == 'Range':
        return sub(agg_get(src, 'end'), agg_get(src, 'start'))
    if k in ('it:map', 'it:copied'):
        return it_count(agg_get(src, 'i'))
    if k == 'it:chain':
        return sub(add(it_count(agg_get(src, 'a')), it_count(agg_get(src, 'b'))), agg_get(src, 'pos'))
    return None


def it_at(I, st, src, i, tag):
    """item i (from now) of an indexable iterator -> (item, state)"""
    k = src.a[0].split('::')[-1]
    if k in ('it:map', 'it:copied'):
        x, st = it_at(I, st, agg_get(src, 'i'), i, tag)
        if k == 'it:copied':
            return I.loadp(st, x), st
        return call1(I, st, agg_get(src, 'f'), [x], 'map' + tag)
    pos = 'start' if k == 'Range' else 'pos'
    h, x, n, st = it_next(I, st, agg_set(src, pos, add(agg_get(src, pos), i)), tag)
    return x, st


class Skip(Exception):
    pass


def inner_next(I, st, v, key, tag):
    """step of the iterator inside an adapter; a rejected element leaves the adapter around it"""
    old = getattr(I, 'skip_hook', None)
    if old is not None:
        I.skip_hook = lambda rej, n: old(rej, agg_set(v, key, n))
    try:
        return it_next(I, st, agg_get(v, key), tag)
    finally:
        I.skip_hook = old


def it_next(I, st, v, tag=''):
    """one step: -> (has, item, iterator after, state)  (item meaningful under has)"""
    if isinstance(v, MT):
        raise Undecided('guarded iterator')
    k = v.a[0].split('::')[-1] if isinstance(v, Agg) else ''
    if k == 'it:slice':
        pos, end, p = agg_get(v, 'pos'), agg_get(v, 'end'), agg_get(v, 'p')
        return gt(end, pos, True), I.refto(p, ('i', pos)), agg_set(v, 'pos', add(pos, ONE)), st
    if k == 'it:val':
        pos, end = agg_get(v, 'pos'), agg_get(v, 'end')
        return gt(end, pos, True), idx(agg_get(v, 'v'), pos), agg_set(v, 'pos', add(pos, ONE)), st
    if k == 'it:hmap':
        pos = agg_get(v, 'pos')
        key = S('streamitem', agg_get(v, 'v'), pos)
        m = agg_get(v, 'm').a[1]
        place = I.refto(agg_get(v, 'p'), ('i', key))
        x = S('&', key) if m == 'keys' else place if m.startswith('values') else tup(S('&', key), place)
        return gt(agg_get(v, 'end'), pos, True), x, agg_set(v, 'pos', add(pos, ONE)), st
    if k == 'it:hset':
        pos = agg_get(v, 'pos')
        x = S('streamitem', agg_get(v, 'v'), pos)
        return gt(agg_get(v, 'end'), pos, True), x if agg_get(v, 'own') is TRUE else S('&', x), agg_set(v, 'pos', add(pos, ONE)), st
    if k == 'it:chain':
        pos = agg_get(v, 'pos')
        n1, n2 = it_count(agg_get(v, 'a')), it_count(agg_get(v, 'b'))
        x, st = it_at(I, st, agg_get(v, 'a'), pos, tag + 'a')
        y, st = it_at(I, st, agg_get(v, 'b'), sub(pos, n1), tag + 'b')
        return gt(add(n1, n2), pos, True), ite(gt(n1, pos, True), x, y), agg_set(v, 'pos', add(pos, ONE)), st
    if k in ('Range',):
        s, e = agg_get(v, 'start'), agg_get(v, 'end')
        return gt(e, s, True), s, agg_set(v, 'start', add(s, ONE)), st
    if k == 'it:rev':
        src = agg_get(v, 'i')
        ks = src.a[0].split('::')[-1]
        if ks in ('it:slice', 'it:val'):
            pos, end = agg_get(src, 'pos'), agg_get(src, 'end')
            e2 = sub(end, ONE)
            item = I.refto(agg_get(src, 'p'), ('i', e2)) if ks == 'it:slice' else idx(agg_get(src, 'v'), e2)
            return gt(end, pos, True), item, agg_set(v, 'i', agg_set(src, 'end', e2)), st
        if ks == 'Range':
            s, e = agg_get(src, 'start'), agg_get(src, 'end')
            e2 = sub(e, ONE)
            return gt(e, s, True), e2, agg_set(v, 'i', agg_set(src, 'end', e2)), st
    if k == 'it:enum':
        src = agg_get(v, 'i')
        off = agg_get(v, 'off')
        ind = index_of(src)
        if off is not None and ind is not None:
            h, x, n, st = inner_next(I, st, v, 'i', tag)
            return h, tup(sub(ind, off), x), agg_set(v, 'i', n), st
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        c = agg_get(v, 'cnt')
        return h, tup(c, x), agg_set(agg_set(v, 'i', n), 'cnt', add(c, ONE)), st
    if k == 'it:copied':
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        return h, I.loadp(st, x), agg_set(v, 'i', n), st
    if k == 'it:map':
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        r = call1(I, st, agg_get(v, 'f'), [x], 'map' + tag, h)
        return h, r[0], agg_set(v, 'i', n), r[1]
    if k == 'it:filter':
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        px = I.alloc(st, x, 'filt:%s%s' % (I.cursite, tag))
        c, st = call1(I, st, agg_get(v, 'f'), [px], 'filter' + tag, h)
        return it_skip(I, st, v, h, x, n, as_bool(c), tag)
    if k == 'it:filter_map':
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        r, st = call1(I, st, agg_get(v, 'f'), [x], 'filter_map' + tag, h)
        c = isvar(r, 'Some')
        return it_skip(I, st, v, h, restrict(mapleaf(lambda y: payload(y, 'Some'), r), c), n, c, tag)
    if k == 'it:take':
        h, x, n, st = inner_next(I, st, v, 'i', tag)
        c = agg_get(v, 'cnt')
        return band(gt(agg_get(v, 'n'), c, True), h), x, agg_set(agg_set(v, 'i', n), 'cnt', add(c, ONE)), st
    if k == 'it:zip':
        h1, x1, n1, st = inner_next(I, st, v, 'a', tag + 'a')
        h2, x2, n2, st = inner_next(I, st, v, 'b', tag + 'b')
        return band(h1, h2), tup(x1, x2), agg_set(agg_set(v, 'a', n1), 'b', n2), st
    if k == 'it:opaque':
        pos = agg_get(v, 'pos')
        src = agg_get(v, 'v')
        return gt(S('streamlen', src), pos, True), S('streamitem', src, pos), agg_set(v, 'pos', add(pos, ONE)), st
    if k == 'it:byref':
        raise Undecided('iterator by reference')
    if isinstance(v, Sym):
        n = S('itpos', v)
        return mt(S('b', S('has', v)), TRUE, FALSE), S('item', v), S('next', v), st
    raise Undecided('iterator kind %s' % k)


def it_skip(I, st, v, h, x, n, c, tag):
    """filtered step: the rejected element goes round the enclosing loop"""
    hook = getattr(I, 'skip_hook', None)
    if hook is None:
        raise Undecided('filter outside a loop')
    rej = st.copy()
    rej.pc = band(band(st.pc, h), bnot(c))
    if rej.pc is not FALSE:
        hook(rej, agg_set(v, 'i', n))
    st = st.copy()
    st.pc = band(st.pc, bor(bnot(h), c))
    return restrict(h, st.pc) if False else h, x, agg_set(v, 'i', n), st


def call1(I, st, clo, args, tag, guard=TRUE):
    """call a closure under a guard; its effects are applied under that guard only"""
    s = st.copy()
    s.pc = band(st.pc, guard) if I.mode == 'merge' else st.pc
    rs = I.call_value(s, clo, args, tag + '@' + I.cursite)
    if not rs:
        return BOT, st
    if len(rs) > 1:
        raise Undecided('forking closure')
    r, s2 = rs[0]
    # pure closures leave memory unchanged: keep the outer pc
    s2.pc = st.pc
    if guard is not TRUE:
        for o in list(s2.mem):
            a, b = st.mem.get(o), s2.mem[o]
            if a is not None and a is not b:
                s2.mem[o] = ite(guard, b, a)
    return r, s2


@model('@iter::Iterator::next', '@iter::DoubleEndedIterator::next_back')
def m_next(I, st, f, a):
    p = a[0]
    v = I.loadp(st, p)
    if isinstance(v, Agg) and v.a[0] == 'it:byref':
        p = agg_get(v, 'p')
        v = I.loadp(st, p)
    if not is_iter(v):
        if isinstance(v, Agg) and 'Range' in str(v.a[0]):
            pass
        elif isinstance(v, Sym) or isinstance(v, Overlay):
            h = mt(S('b', S('has', v)), TRUE, FALSE)
            I.storep(st, p, S('next', v))
            return [(ite(h, some(S('item', v)), NONE), st)]
    if f['path'].endswith('next_back'):
        v = it('rev', i=v)

    def hook(rej, n):
        if not I.loopstack:
            raise Undecided('filter outside a loop')
        I.storep(rej, p, n)
        I.loopstack[-1].extra_backs.append(rej)
    old = getattr(I, 'skip_hook', None)
    I.skip_hook = hook
    try:
        h, x, n, st = it_next(I, st, v)
    finally:
        I.skip_hook = old
    if f['path'].endswith('next_back'):
        n = agg_get(n, 'i')
    I.storep(st, p, ite(h, n, v) if not isinstance(n, Agg) else n)
    return [(ite(h, some(x), NONE), st)]


def synth_loop(I, st, itv, step, acc0, tag):
    """run `acc = step(state, acc, item)` over an iterator as a loop of the analysis.
    Returns (acc at exit, LoopInfo, state)."""
    fr = I.stack[-1]
    lid = '%s@%s%s' % (fr, tag, I.cursite[len(fr):] if I.cursite.startswith(fr) else I.cursite)
    oi, oa = ('L', fr, 'it:' + tag + I.cursite), ('L', fr, 'acc:' + tag + I.cursite)
    st = st.copy()
    st.mem[oi] = itv
    st.mem[oa] = acc0
    site = I.cursite

    def body(s):
        I.cursite = site
        v = s.mem[oi]
        backs = []

        def hook(rej, n):
            rej.mem[oi] = n
            backs.append(rej)
        old = getattr(I, 'skip_hook', None)
        I.skip_hook = hook
        try:
            h, x, n, s = it_next(I, s, v, tag)
        finally:
            I.skip_hook = old
        ex = s.copy()
        ex.pc = band(s.pc, bnot(h))
        go = s
        go.pc = band(s.pc, h)
        exits = [('next', ex)] if ex.pc is not FALSE else []
        if go.pc is not FALSE:
            go.mem[oi] = n
            I.cursite = site
            for acc, s2, done in step(go, go.mem[oa], x):
                s2.mem[oa] = acc
                if done:
                    exits.append(('next', s2))
                else:
                    backs.append(s2)
        return backs, exits
    outs = I.run_loop(lid, I.fnstack[-1], st, body)
    if not outs:
        return BOT, I.loops[lid], None
    s = I.join([x for _, x in outs]) if I.mode == 'merge' else outs[0][1]
    acc = s.mem.pop(oa)
    s.mem.pop(oi, None)
    return acc, I.loops[lid], s


def itarg(I, st, v):
    r = as_iter(I, st, v)
    if r is not None and r.a[0] == 'it:byref':
        return I.loadp(st, agg_get(r, 'p'))
    return r or it('opaque', v=v, pos=ZERO)


@model('@iter::Iterator::sum', '@iter::Iterator::count', '@iter::Iterator::fold', '@iter::Iterator::for_each', '@iter::Iterator::all', '@iter::Iterator::any', '@iter::Iterator::product')
def m_consume(I, st, f, a):
    nm = f['path'].split('::')[-1]
    src = itarg(I, st, a[0])
    isref = nm == 'sum' and any('Sum<&' in x for x in [f.get('res', '')])

    def step(s, acc, x):
        if nm == 'sum':
            if isinstance(x, Ref):
                x = I.loadp(s, x)
            return [(add(acc, x), s, False)]
        if nm == 'product':
            return [(mul(acc, x), s, False)]
        if nm == 'count':
            return [(add(acc, ONE), s, False)]
        if nm == 'fold':
            return [(r, s2, False) for r, s2 in I.call_value(s, a[2], [acc, x], 'fold@' + I.cursite)]
        if nm == 'for_each':
            return [(acc, s2, False) for r, s2 in I.call_value(s, a[1], [x], 'each@' + I.cursite)]
        r, s2 = call1(I, s, a[1], [x], nm)
        c = as_bool(r)
        # no early exit: any/all have no side effects worth ordering
        return [(band(acc, c) if nm == 'all' else bor(acc, c), s2, False)]
    init = {'sum': ZERO, 'count': ZERO, 'fold': a[1] if nm == 'fold' else None, 'for_each': UNIT, 'all': TRUE, 'any': FALSE, 'product': ONE}[nm]
    acc, info, s = synth_loop(I, st, src, step, init, nm)
    if s is None:
        return []
    return [(acc, s)]


def do_collect(I, st, src, byref=True, hset=False):
    def step(s, acc, x):
        if not byref and isinstance(x, (Ref,)):
            x = I.loadp(s, x)
        return [(S('HashSet.insert', acc, x) if hset else S('push', acc, x), s, False)]
    acc, info, s = synth_loop(I, st, src, step, S('emptyset') if hset else S('emptyvec'), 'collect')
    return acc, s


@model('@iter::Iterator::collect')
def m_collect(I, st, f, a):
    src = itarg(I, st, a[0])
    I.emit(st, 'collect', ' '.join(f['args']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    acc, s = do_collect(I, st, src, hset=len(f['args']) > 1 and base_ty(f['args'][1]) == 'HashSet')
    if s is None:
        return []
    if len(f['args']) > 1 and base_ty(f['args'][1]) in ('Result', 'Option'):
        return [(collected(acc, 'Ok' if base_ty(f['args'][1]) == 'Result' else 'Some'), s)]
    if len(f['args']) > 1 and base_ty(f['args'][1]) == 'String':
        acc = S('flat', acc, S('str', ''))
    return [(acc, s)]


def collected(acc, nm):
    """a sequence of results as one result: the first failure, or all values"""
    n, c, body, b = body_of(acc)
    g = isvar(body, nm)
    allok = mt(S('all', n, bor(bnot(c), g), b), TRUE, FALSE)
    pay = restrict(mapleaf(lambda x: payload(x, nm), body), g)
    i = S('firstidx', n, band(c, bnot(g)), b)
    val = S('vecof', n, pay, b) if c is TRUE else S('filtered', n, c, pay, b)
    if nm == 'Some':
        return ite(allok, some(val), NONE)
    return ite(allok, ok(val), err(restrict(mapleaf(lambda x: payload(x, 'Err'), subst(body, {b: i})), bnot(subst(g, {b: i})))))


def body_of(v):
    """(count, condition, element, binder) of a collected sequence"""
    if isinstance(v, Sym) and v.h == 'vecof':
        return v.a[1], TRUE, v.a[2], v.a[3]
    if isinstance(v, Sym) and v.h == 'filtered':
        return v.a[1], v.a[2], v.a[3], v.a[4]
    b = S('β', I_beta(v))
    return length(v), TRUE, idx(v, b), b


def I_beta(v):
    lv = -1
    for x in atoms(v):
        if x.h == 'β':
            lv = max(lv, x.a[1])
    return lv + 1


@model('@iter::Iterator::max_by', '@iter::Iterator::min_by', '@iter::Iterator::max_by_key', '@iter::Iterator::min_by_key', '@iter::Iterator::max', '@iter::Iterator::min', '@iter::Iterator::position', '@iter::Iterator::find')
def m_maxby(I, st, f, a):
    nm = f['path'].split('::')[-1]
    src = itarg(I, st, a[0])
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    v, s = do_collect(I, st, src)
    if s is None:
        return []
    n, c, body, b = body_of(v)
    at = lambda x: subst(body, {b: x})
    I.sel_any = None
    if nm in ('find', 'position'):
        t, (bb,) = closure_term(I, s, a[1], boxed(at) if nm == 'find' else (lambda I_, s_, x: at(x)), 1)
        cond = as_bool(t)
        if nm == 'position' and c is not TRUE:
            raise Undecided('position of a filtered iterator')
        cond = band(subst(c, {b: bb}), cond)
        i = S('firstidx', n, cond, bb)
        anyc = bnot(mt(S('all', n, bnot(cond), bb), TRUE, FALSE))
        return [(ite(anyc, some(i if nm == 'position' else at(i)), NONE), s)]
    if nm in ('max_by', 'min_by'):
        t, bs = closure_term(I, s, a[1], boxed(at), 2)
        less = isvar(t, 'Less')
        more = isvar(t, 'Greater')
    elif nm in ('max_by_key', 'min_by_key'):
        t, (b1,) = closure_term(I, s, a[1], boxed(at), 1)
        b2 = S('β', b1.a[1] + 1)
        bs = [b1, b2]
        t2 = subst(t, {b1: b2})
        less, more = gt(t2, t), gt(t, t2)
    else:
        bs = [S('β', I_beta(body)), S('β', I_beta(body) + 1)]
        x, y = at(bs[0]), at(bs[1])
        if isinstance(x, Ref):
            x, y = I.loadp(s, x), I.loadp(s, y)
        less, more = gt(y, x, True), gt(x, y, True)
    b1 = bs[0]
    cond = subst(c, {b: b1})
    # min keeps the first of equals, max the last
    i = S('selidx', nm[:3], n, cond, b1, less if nm.startswith('min') else more, bs[0], bs[1])
    anyc = gt(n, ZERO, True) if cond is TRUE else bnot(mt(S('all', n, bnot(cond), b1), TRUE, FALSE))
    return [(ite(anyc, some(at(i)), NONE), s)]


@model('@iter::Iterator::find_map')
def m_findmap(I, st, f, a):
    src = it('filter_map', i=itarg(I, st, a[0]), f=a[1])
    v, s = do_collect(I, st, src)
    if s is None:
        return []
    n = length(v)
    return [(ite(gt(n, ZERO, True), some(idx(v, ZERO)), NONE), s)]


@model('@iter::Iterator::last')
def m_itlast(I, st, f, a):
    src = itarg(I, st, a[0])
    v, s = do_collect(I, st, src)
    n = length(v)
    return [(ite(gt(n, ZERO, True), some(idx(v, sub(n, ONE))), NONE), s)]


# --------------------------------------------------------- closures as values
@model('@ops::Fn::call', '@ops::FnMut::call_mut', '@ops::FnOnce::call_once')
def m_fncall(I, st, f, a):
    args = a[1].a[3] if isinstance(a[1], Agg) else [a[1]]
    return I.call_value(st, a[0], list(args), 'call@' + I.cursite)


# -------------------------------------------------------------- text, logging
@model('log::max_level', 'log::STATIC_MAX_LEVEL')
def m_loglevel(I, st, f, a):
    return [(S('loglevel'), st)]


@model('log::__private_api_log', 'log::__private_api::log', 'log::__private_api::enabled')
def m_log(I, st, f, a):
    return [(UNIT, st)]


# ----------------------------------------------------------- randomness, clock
def m_rng(nm):
    def f_(I, st, f, a):
        v = I.loadp(st, a[0])
        rest = tuple(I.deep(st, x) for x in a[1:])
        if nm == 'shuffle':
            n = length(I.loadp(st, a[1]))
            upd(I, st, a[1], lambda old: S('shuffled', v, old))
            r, rest = UNIT, (n,)
        else:
            r = S('rnd', nm, v, rest)
        I.emit(st, 'rng', nm, a, snap=[v], sp=I.curt['sp'], call=f)
        I.storep(st, a[0], S('rndnext', nm, v, rest))
        return [(r, st)]
    return f_


for _n in ('usize', 'f64', 'shuffle', 'bool', 'u64', 'u32', 'i32', 'i64', 'u8', 'f32', 'isize', 'char', 'alphanumeric'):
    MODELS['fastrand::Rng::' + _n] = m_rng(_n)

def m_pure(nm):
    def f_(I, st, f, a):
        e = I.emit(st, 'seed', nm, a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
        return [(S('fn:' + nm, *[I.deep(st, x) for x in a]), st)]
    return f_


for _n, _p in (('seeded', 'fastrand::Rng::with_seed'), ('entropy', 'fastrand::Rng::new'), ('hashseeded', 'ahash::RandomState::with_seeds'), ('hashentropy', 'ahash::RandomState::new'),
               ('hashseeded1', 'ahash::RandomState::with_seed'), ('hashgen', 'ahash::RandomState::generate_with')):
    MODELS[_p] = m_pure(_n)
    MODELS[_p.replace('RandomState::', 'random_state::RandomState::')] = MODELS[_p]

CLOCK = ('A', 'clock')


def clock_read(I, st):
    c = st.mem.get(CLOCK, S('clock0'))
    st.mem[CLOCK] = S('tick', c)
    return c


@model('std::time::Instant::now', 'instant::Instant::now')
def m_now(I, st, f, a):
    I.emit(st, 'clock', 'now', a, sp=I.curt['sp'], call=f)
    return [(S('instant', clock_read(I, st)), st)]


@model('std::time::Instant::elapsed', 'instant::Instant::elapsed')
def m_elapsed(I, st, f, a):
    I.emit(st, 'clock', 'elapsed', a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    return [(S('since', clock_read(I, st), I.loadp(st, a[0])), st)]


@model('core::time::Duration::as_secs', 'std::time::Duration::as_secs', 'instant::Duration::as_secs')
def m_assecs(I, st, f, a):
    return [(S('trunc', S('secs', I.loadp(st, a[0]))), st)]


@model('core::time::Duration::as_secs_f64', 'std::time::Duration::as_secs_f64', 'instant::Duration::as_secs_f64')
def m_assecsf(I, st, f, a):
    x = I.loadp(st, a[0])
    if isinstance(x, Sym) and x.h == 'duration':
        return [(x.a[1], st)]
    return [(S('secs', x), st)]


@model('core::time::Duration::from_secs_f64', 'std::time::Duration::from_secs_f64', 'instant::Duration::from_secs_f64')
def m_fromsecsf(I, st, f, a):
    return [(S('duration', a[0]), st)]


# ------------------------------------------------ raw buffers
def m_ptroff(I, st, f, a):
    """a pointer to an element of a buffer; a pointer no element was chosen of stands for the whole buffer"""
    nm = strip_generics(f['path']).split('::')[-1]
    k = neg(a[1]) if nm in ('sub', 'wrapping_sub') else a[1]
    r = None
    for g, obj, pr in I.targets(a[0]):
        if pr and pr[-1][0] == 'i':
            x = mkref(obj, pr[:-1] + (('i', add(pr[-1][1], k)),))
        else:
            x = mkref(obj, pr + (('i', k),))
        r = x if r is None else ite(g, x, r)
    return [(r if r is not None else BOT, st)]


for _p in ('std::ptr::mut_ptr::', 'core::ptr::mut_ptr::', 'std::ptr::const_ptr::', 'core::ptr::const_ptr::', 'std::ptr::NonNull::', 'core::ptr::NonNull::'):
    for _n in ('offset', 'add', 'sub', 'wrapping_add', 'wrapping_sub', 'wrapping_offset'):
        MODELS[_p + _n] = m_ptroff
    for _n in ('cast', 'as_ptr', 'cast_mut', 'cast_const'):
        MODELS[_p + _n] = m_id
    MODELS[_p + 'read'] = m_get


@model('@ptr::read')
def m_ptrread(I, st, f, a):
    return [(I.loadp(st, a[0]), st)]


@model('@ptr::write')
def m_ptrwrite(I, st, f, a):
    I.storep(st, a[0], a[1])
    return [(UNIT, st)]


@model('@slice::from_raw_parts', '@slice::from_raw_parts_mut')
def m_rawparts(I, st, f, a):
    r = None
    for g, obj, pr in I.targets(a[0]):
        lo = ZERO
        if pr and pr[-1][0] == 'i':
            lo, pr = pr[-1][1], pr[:-1]
        x = mkref(obj, pr + (('sub', lo, add(lo, a[1])),))
        r = x if r is None else ite(g, x, r)
    return [(r if r is not None else BOT, st)]


@model('@alloc::Layout::array')
def m_layout(I, st, f, a):
    return [(ok(agg('Layout', None, ('size', 'elem'), (a[0], S('type', selfty(f))))), st)]


@model('@alloc::Layout::size')
def m_layoutsize(I, st, f, a):
    v = I.loadp(st, a[0])
    return [(read1(v, ('f', 'size')), st)]


@model('@ptr::NonNull::dangling', '@ptr::dangling_mut', '@ptr::dangling', '@ptr::NonNull::new_unchecked')
def m_dangling(I, st, f, a):
    return [(a[0] if a else S('dangling'), st)]


@model('@alloc::alloc_zeroed', '@alloc::alloc')
def m_alloc(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    return [(S('allocated', strip_generics(f['path']).split('::')[-1], a[0]), st)]


@model('@alloc::dealloc')
def m_dealloc(I, st, f, a):
    I.emit(st, 'call', strip_generics(f['path']), a, snap=I.snapshot(st, a), sp=I.curt['sp'], call=f)
    return [(UNIT, st)]


# ------------------------------------------------ tables (Matrix<T>): rows of cells
def mat_in(I, st, m, row, col):
    """in the table ghost: the access leaves the table"""
    if I.panics == 'tables':
        v = I.loadp(st, m)
        inside = band(band(gt(read1(v, ('f', 'rows')), row, True), gt(read1(v, ('f', 'cols')), col, True)), band(gt(row, const(-1), True), gt(col, const(-1), True)))
        I.abnormal(st, bnot(inside), "tables")


def mat_new(I, st, f, a):
    z = ZERO
    row = S('repeat', z, a[1])
    return [(agg('Matrix', None, ('data', 'rows', 'cols'), (S('repeat', row, a[0]), a[0], a[1])), st)]


def mat_init(I, st, f, a):
    row = S('repeat', a[0], a[2])
    return [(agg('Matrix', None, ('data', 'rows', 'cols'), (S('repeat', row, a[1]), a[1], a[2])), st)]


def mat_ref(I, a):
    return I.refto(a[0], ('f', 'data'), ('i', a[1]), ('i', a[2]))


def mat_get(I, st, f, a):
    mat_in(I, st, a[0], a[1], a[2])
    return [(I.loadp(st, mat_ref(I, a)), st)]


def mat_get_mut(I, st, f, a):
    mat_in(I, st, a[0], a[1], a[2])
    return [(mat_ref(I, a), st)]


def mat_set(I, st, f, a):
    mat_in(I, st, a[0], a[1], a[2])
    I.storep(st, mat_ref(I, a), a[3])
    return [(UNIT, st)]


def mat_slice(I, st, f, a):
    if I.panics == 'tables':
        v = I.loadp(st, a[0])
        n = mul(read1(v, ('f', 'rows')), read1(v, ('f', 'cols')))
        I.abnormal(st, gt(add(add(mul(a[1], read1(v, ('f', 'cols'))), a[2]), a[3]), n, True), "tables")
    return [(I.refto(a[0], ('f', 'data'), ('i', a[1]), ('sub', a[2], add(a[2], a[3]))), st)]


def mat_max(I, st, f, a):
    return [(S('matmax', read1(I.loadp(st, a[0]), ('f', 'data'))), st)]


def mat_clone(I, st, f, a):
    return [(I.loadp(st, a[0]), st)]


MATRIX = {'Matrix::new': mat_new, 'Matrix::init': mat_init, 'Matrix::get': mat_get, 'Matrix::get_mut': mat_get_mut, 'Matrix::set': mat_set,
          'Matrix::slice': mat_slice, 'Matrix::slice_mut': mat_slice, 'Matrix::get_max': mat_max, 'Matrix::clone': mat_clone}


# ----------------------------------------------------------- binary searches
def search_model(nm):
    def f_(I, st, f, a):
        v = I.loadp(st, a[0])
        n = length(v)
        if nm == 'partition_point':
            t, (b,) = closure_term(I, st, a[1], boxed(lambda b: idx(v, b)), 1)
            return [(S('sum', n, ite(as_bool(t), ONE, ZERO), b), st)]
        if nm == 'binary_search_by':
            t, (b,) = closure_term(I, st, a[1], boxed(lambda b: idx(v, b)), 1)
        else:
            et = selem(f)
            fn = [x for x in I.prog.by.get((et, 'cmp'), [])] if et else []
            x = I.loadp(st, a[1])
            if fn:
                px = I.alloc(st, x, 'key:' + I.cursite)
                clo = S('fn', fn[0].uid, fn[0].uid)
                def mk(I_, s, b):
                    return I_.alloc(s, idx(v, b), 'elem:' + I_.cursite)
                _cb[0] += 1
                b0 = S('βc', _cb[0])
                s2 = st.copy()
                s2.pc = TRUE
                r = I.call_value(s2, clo, [mk(I, s2, b0), px], 'key@' + I.cursite)
                if len(r) != 1:
                    raise Undecided('comparator')
                b = S('β', I_beta(r[0][0]))
                t = subst(r[0][0], {b0: b})
            else:
                b = S('β', I_beta(tup(v, x)))
                t = ordering(idx(v, b), x, True)
        less, same = isvar(t, 'Less'), isvar(t, 'Equal')
        pos = S('sum', n, ite(less, ONE, ZERO), b)
        found = bnot(mt(S('all', n, bnot(same), b), TRUE, FALSE))
        return [(ite(found, ok(pos), err(pos)), st)]
    return f_


for _n in ('binary_search', 'binary_search_by', 'partition_point'):
    MODELS['core::slice::' + _n] = search_model(_n)
    MODELS['std::slice::' + _n] = search_model(_n)
