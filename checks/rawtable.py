"""The table type over raw memory: allocation, offsets, release."""
from common import *
import models
import rint
from program import strip_generics
from terms import *

RAW = {n: None for n in models.MATRIX}
ALLOC = ('alloc', 'alloc_zeroed', 'dealloc', 'realloc')


def raw(k, nm):
    f = k.prog.find('Matrix', nm)
    if f is None:
        k.undecided('Matrix::%s' % nm, 'src/models/matrix.rs', 'the function does not exist')
        return None, None
    k.anchors.append('%s (%s:%s)' % (f.label, f.file, f.line))
    try:
        s = k.runfn(f, models=RAW, args=default_args(f))
    except (Undecided, Unsupported) as e:
        k.undecided('Matrix::%s' % nm, f, str(e))
        return f, None
    return f, s


def elem(k, nm, layout, adt, f):
    t = read1(lift(layout), ('f', 'elem'))
    if isinstance(t, Sym) and t.h == 'type' and isinstance(t.a[1], str):
        k.ok('%s: the cells have the type of the elements' % nm, "'*mut %s'" % t.a[1] in str(adt), f, 'layout of %s, table %s' % (t.a[1], cut(str(adt), 300)))
    else:
        k.undecided('%s: the cells have the type of the elements' % nm, f, 'no element type in %s' % cut(rep(lift(layout))))


def primitives(k):
    me_ = A('self').d
    buf = me_.ptr.d
    adt = next((a for p, a in k.prog.adts.items() if p.split('::')[-1] == 'Matrix'), None)
    if adt is None or 'ptr' not in str(adt) or '*mut' not in str(adt):
        k.undecided('Matrix: storage', 'src/models/matrix.rs', 'the table is not held behind a raw pointer field named ptr any more')
        return
    at = lambda r, c: r * me_.cols + c
    f, s = raw(k, 'get')
    if s:
        k.eq('Matrix::get: the cell read', s.ret, buf[at(arg(1), arg(2))], f)
    f, s = raw(k, 'get_mut')
    if s:
        k.eq('Matrix::get_mut: the cell referred to', s.mem(s.ret), buf[at(arg(1), arg(2))], f)
        k.ok('Matrix::get_mut: a reference into the table', isinstance(s.ret_, Ref) and s.ret_.a[0] == ('H', lift(me_.ptr)), f, 'returns %s' % cut(rep(s.ret_)))
    f, s = raw(k, 'set')
    if s:
        k.eq('Matrix::set: the table after the write', s.mem(me_.ptr), SetIdx(buf, at(arg(1), arg(2)), arg(3)), f)
        k.eq('Matrix::set: dimensions', s.mem(A('self')).rows * 100 + s.mem(A('self')).cols, me_.rows * 100 + me_.cols, f)
    for nm in ('slice', 'slice_mut'):
        f, s = raw(k, nm)
        if s:
            lo = at(arg(1), arg(2))
            k.eq('Matrix::%s: the cells handed out' % nm, s.mem(s.ret), E(S('sub', lift(buf), lift(lo), lift(lo + arg(3)))), f)
    f, s = raw(k, 'new')
    if s:
        n = arg(0) * arg(1)
        r = s.ret
        k.eq('Matrix::new: rows', r.rows, arg(0), f)
        k.eq('Matrix::new: cols', r.cols, arg(1), f)
        al = [e for e in s.events if e.kind == 'call' and e.name.split('::')[-1] in ALLOC]
        k.ok('Matrix::new: takes its memory from the allocator, zeroed', len(al) == 1 and al[0].name.endswith('alloc_zeroed'), f, '%s' % [e.name for e in al])
        for e in al:
            size = read1(lift(e.args[0]), ('f', 'size'))
            k.eq('Matrix::new: cells allocated', E(size), n, f)
            elem(k, 'Matrix::new', e.args[0], adt, f)
            k.imp('Matrix::new: the allocator is asked for at least one cell', e.pc, bnot(eq(size, ZERO)), f)
            got = mt(S('=', lift(r.ptr), S('allocated', 'alloc_zeroed', lift(e.args[0]))), TRUE, FALSE)
            p = restrict(lift(r.ptr), lift(GtI(n, 0)))
            k.ok('Matrix::new: the table with cells points to the memory allocated', p is S('allocated', 'alloc_zeroed', lift(e.args[0]))
                 or all(x is S('allocated', 'alloc_zeroed', lift(e.args[0])) or isinstance(x, Sym) and x.h == 'dangling' for x in leafset(lift(r.ptr)))
                 and implied(lift(GtI(n, 0)), e.pc), f, 'points to %s' % cut(rep(p)))
    d = [g for g in k.prog.fns.values() if g.self_ty == 'Matrix' and g.name == 'drop']
    if not d:
        k.fail('Matrix: drop', 'src/models/matrix.rs', 'the memory of a table is never released')
    f, s = raw(k, 'drop')
    if s:
        de = [e for e in s.events if e.kind == 'call' and e.name.split('::')[-1] in ALLOC]
        for e in de:
            k.eq('Matrix::drop: cells released', E(read1(lift(e.args[1]), ('f', 'size'))), me_.rows * me_.cols, f)
            elem(k, 'Matrix::drop', e.args[1], adt, f)
            k.ok('Matrix::drop: memory released', lift(e.args[0]) is lift(me_.ptr), f, 'releases %s' % cut(rep(lift(e.args[0]))))
            k.imp('Matrix::drop: nothing is released that was not allocated', e.pc, bnot(eq(read1(lift(e.args[1]), ("f", "size")), ZERO)), f)
        k.ok('Matrix::drop: releases once', len(de) == 1 and de[0].name.endswith('dealloc'), f, '%s' % [e.name for e in de])
    f, s = raw(k, 'get_max')
    g = k.spec.find('', 'buffer_max')
    if s and g:
        b = k.runfn(g, prog=k.spec, args=[mkref(('H', lift(me_.ptr)), (('sub', ZERO, lift(me_.rows * me_.cols)),))])
        k.eq('Matrix::get_max: the largest cell', s.ret, b.ret, f)
    # nothing else touches raw memory of tables
    for h in k.prog.fns.values():
        if h.self_ty == 'Matrix' and h.name in ('get', 'get_mut', 'set', 'slice', 'slice_mut', 'new', 'drop', 'get_max'):
            continue
        for b in h.blocks:
            t = b['t']
            if b['c'] or t['k'] != 'call':
                continue
            p = strip_generics(t['f'].get('path') or '')
            if p.split('::')[-1] in ALLOC and '::alloc::' in p or p.split('::')[-1] in ('from_raw_parts', 'from_raw_parts_mut') or '_ptr::' in p and p.split('::')[-1] in ('offset', 'add', 'sub', 'wrapping_add', 'wrapping_sub'):
                k.undecided('%s: raw memory' % h.label, '%s %s' % (t.get('sp', ''), h.label), 'raw memory is handled outside the functions of the table: %s' % p)


def implied(c, pc):
    return rint.implies(c, pc)[0]
