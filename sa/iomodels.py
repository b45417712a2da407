"""Models of the configuration, command-line and output operations."""
import re
import terms as tm
from terms import *
from models import model, base_ty, selfty, m_hmapiter, some, m_mapget, it, charof, joined
from interp import MODELS
from program import strip_generics


# ------------------------------------------------------------- serde_yaml
# a YAML value is a table of its keys; Mapping likewise
@model('serde_yaml::Value::get_mut', 'serde_yaml::Value::get', 'serde_yaml::value::Value::get_mut', 'serde_yaml::value::Value::get', 'serde_yaml::Mapping::get', 'serde_yaml::Mapping::get_mut')
def m_yget(I, st, f, a):
    return m_mapget(I, st, f, a)


@model('serde_yaml::Mapping::contains_key')
def m_ycontains(I, st, f, a):
    return [(S('contains', I.loadp(st, a[0]), unref(I.deep(st, a[1]))), st)]


@model('serde_yaml::Mapping::iter', 'serde_yaml::Mapping::iter_mut', 'serde_yaml::mapping::Mapping::iter')
def m_yiter(I, st, f, a):
    return m_hmapiter(I, st, {'path': 'std::collections::HashMap::iter'}, a)


def m_yis(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    return [(isvar(I.loadp(st, a[0]), {'is_null': 'Null', 'is_bool': 'Bool', 'is_string': 'String', 'is_sequence': 'Sequence', 'is_mapping': 'Mapping', 'is_number': 'Number'}[nm]), st)]


for _n in ('is_null', 'is_bool', 'is_string', 'is_sequence', 'is_mapping', 'is_number'):
    MODELS['serde_yaml::Value::' + _n] = MODELS['serde_yaml::value::Value::' + _n] = m_yis


def unref(x):
    while isinstance(x, Sym) and x.h == '&':
        x = x.a[1]
    return x


@model('serde_yaml::to_value', 'serde_yaml::value::to_value', 'serde_yaml::from_value', 'serde_yaml::value::from_value', 'serde_yaml::to_string', 'serde_yaml::from_str', 'serde_yaml::from_reader')
def m_yconv(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    x = plain(I, st, a[0])
    x = unref(I.deep(st, x))
    if nm == 'from_reader' and isinstance(x, Sym) and x.h == 'bufreader':
        x = x.a[1]
    return [(S('call', 'serde_yaml::' + nm, (x,)), st)]


@model('@io::BufReader::new', '@io::BufReader::with_capacity')
def m_bufr(I, st, f, a):
    return [(S('bufreader', a[-1]), st)]


@model('@io::BufWriter::new', '@io::LineWriter::new', '@io::BufWriter::with_capacity')
def m_bufw(I, st, f, a):
    return None


# ------------------------------------------------------------------- clap
IGNORED = ('help', 'long_help', 'about', 'version', 'author', 'long_about', 'display_order', 'value_name', 'after_help', 'before_help', 'setting', 'settings', 'bin_name')


def m_builder(I, st, f, a):
    """builders of options: a set of named settings, the order in which they are given is immaterial; texts of the help are ignored"""
    nm = strip_generics(f['path']).split('::')[-1]
    if nm in IGNORED:
        return [(a[0], st)]
    if nm in ('new', 'with_name') and not (isinstance(a[0], Sym) and a[0].h == 'clap'):
        return [(S('clap', () if 'App' in f['path'] else ((('name',), I.deep(st, a[0])),)), st)]
    b = a[0]
    if not (isinstance(b, Sym) and b.h == 'clap'):
        return None
    v = tuple(unref(I.deep(st, x)) for x in a[1:])
    if nm in ('required', 'takes_value', 'multiple') and v and v[0] is FALSE:
        return [(b, st)]
    items = [x for x in b.a[1] if x[0] != (nm,) or nm in ('arg', 'alias', 'possible_value')]
    items.append(((nm,), v))
    items.sort(key=lambda x: (x[0], argname(x[1])))
    return [(S('clap', tuple(items)), st)]


def argname(v):
    """named options first, positional ones in their order"""
    r = repr(v)
    return r if "'short'" in r or "'long'" in r or 'Arg' not in r else '~'


for _n in ('new', 'with_name', 'arg', 'required', 'short', 'long', 'takes_value', 'default_value', 'possible_values', 'multiple', 'number_of_values', 'index', 'alias', 'conflicts_with',
           'possible_value', 'empty_values', 'requires', 'validator', 'last', 'env', 'hidden', 'value_delimiter', 'min_values', 'max_values', 'default_value_if', 'global', 'allow_hyphen_values') + IGNORED:
    for _t in ('App', 'Arg', 'app::App', 'args::Arg'):
        MODELS['clap::%s::%s' % (_t, _n)] = m_builder


# ---------------------------------------------------- number formatting, text
FMT = ('display', 'debug', 'lower_exp', 'upper_exp', 'lower_hex', 'upper_hex', 'octal', 'binary', 'pointer')


def m_fmtarg(kind):
    def f_(I, st, f, a):
        return [(S('fmtarg', kind, shown(I, st, a[0], argty(f), kind)), st)]
    return f_


def argty(f):
    a = [x for x in f.get('args') or () if not x.startswith("'")]
    return a[0] if a else ''


def local_fmt(I, t, kind):
    tr = {'display': 'Display', 'debug': 'Debug'}.get(kind)
    b = base_ty(re.sub(r"^(&('\w+ )?(mut )?)+", '', t or ''))
    for g in I.prog.fns.values():
        if g.name == 'fmt' and g.trait == tr and g.self_ty == b:
            return g
    return None


def plain(I, st, x):
    """the value behind any number of references"""
    for _ in range(6):
        if isinstance(x, Ref):
            x = I.load(st, x.a[0], x.a[1])
        elif isinstance(x, Sym) and x.h == '&':
            x = x.a[1]
        else:
            break
    return x


def shown(I, st, p, t, kind):
    v = I.loadp(st, p)
    t = (t or '').strip()
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
        v = I.loadp(st, v) if not (isinstance(v, Sym) and v.h in ('str',)) else v
    v = plain(I, st, v)
    if kind == 'display' and base_ty(t) in ('String', 'str'):
        return S('text', v)
    if local_fmt(I, t, kind) is not None:
        return S('text', S('fn:shown', base_ty(t), kind, I.deep(st, v)))
    return S('disp', kind, v)


for _k in FMT:
    for _p in ('core::fmt::rt::Argument::new_', 'std::fmt::rt::Argument::new_', 'core::fmt::rt::Argument::from_'):
        MODELS[_p + _k] = m_fmtarg(_k)


def template(b):
    """the pieces of a format template (see core::fmt::write)"""
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out
        if c < 0x80:
            out.append(b[i:i + c].decode('utf-8', 'replace'))
            i += c
        elif c == 0x80:
            k = b[i] + 256 * b[i + 1]
            out.append(b[i + 2:i + 2 + k].decode('utf-8', 'replace'))
            i += 2 + k
        else:
            opt = []
            for bit, w in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if c & bit:
                    v = int.from_bytes(b[i:i + w], 'little')
                    i += w
                    if bit == 8:
                        n = v
                    else:
                        opt.append((bit, v))
            out.append((n, tuple(opt), c & 48))
            n += 1
    return out


def m_args(I, st, f, a):
    import ast
    t = plain(I, st, a[0])
    if isinstance(t, Sym) and t.h == 'str':
        return [(S('fmtargs', tuple(S('str', c) for c in t.a[1])), st)]
    raw = next((x for x in (t.a if isinstance(t, (Sym, Agg)) else ()) if isinstance(x, str) and x.startswith('b"')), None)
    if raw is None:
        return None
    arr = plain(I, st, a[1]) if len(a) > 1 else None
    vals = []
    items = []
    for p in template(ast.literal_eval(raw)):
        if isinstance(p, str):
            items += [S('str', c) for c in p]
            continue
        n, opt, dyn = p
        x = plain(I, st, read1(arr, ('i', const(n))))
        if not (isinstance(x, Sym) and x.h == 'fmtarg') or dyn:
            return None
        x = x.a[2]
        items.append(S('spec', opt, x) if opt else x)
    return [(S('fmtargs', tuple(items)), st)]


for _p in ('std::fmt::Arguments::', 'core::fmt::Arguments::', 'core::fmt::rt::Arguments::', 'core::fmt::rt::Arguments::', 'std::fmt::rt::Arguments::'):
    for _n in ('new', 'from_str', 'new_const', 'from_str_nonconst'):
        MODELS[_p + _n] = m_args


def addtext(old, x):
    if isinstance(x, Sym) and x.h == 'text':
        x = x.a[1]
        if isinstance(x, Sym) and x.h == 'str':
            for c in x.a[1]:
                old = S('push', old, S('str', c))
            return old
        if isinstance(x, Sym) and x.h == 'emptyvec':
            return old
        if isinstance(old, Sym) and old.h == 'emptyvec':
            return x
        return S('concat', old, x)
    if isinstance(x, MT):
        return mapleaf(lambda y: addtext(old, y), x)
    return S('push', old, x)


def items_of(x):
    return x.a[1] if isinstance(x, Sym) and x.h == 'fmtargs' else None


@model('@fmt::format', 'alloc::fmt::format', '@fmt::format::format_inner', 'alloc::fmt::format::format_inner')
def m_format(I, st, f, a):
    its = items_of(a[0])
    if its is None:
        return None
    v = S('emptyvec')
    for x in its:
        v = addtext(v, x)
    return [(v, st)]


@model('@string::ToString::to_string')
def m_tostring(I, st, f, a):
    x = shown(I, st, a[0], argty(f), 'display')
    return [(x.a[1] if x.h == 'text' else S('push', S('emptyvec'), x), st)]


OKU = agg('core::result::Result', 'Ok', ('0',), (UNIT,))


def handle(v):
    """(file a handle writes to, is it buffered)"""
    buf = False
    while isinstance(v, Sym) and v.h in ('bufw', 'flushed'):
        buf = buf or v.h == 'bufw'
        v = v.a[1]
    return v, buf


FILES = S('arg', 'the file system')


def bytetext(x):
    """a constant byte string as text"""
    raw = next((y for y in x.a if isinstance(y, str) and y.startswith('b"')), None) if isinstance(x, Sym) else None
    if raw is not None:
        import ast
        try:
            return S('str', ast.literal_eval(raw).decode('ascii'))
        except (ValueError, SyntaxError):
            pass
    return x


@model('@string::String::as_bytes', '@string::String::into_bytes', '@str::String::into_boxed_str', '@string::String::as_mut_str', '@str::str::as_bytes', '@str::str::to_owned',
       '@str::str::to_string', 'alloc::str::into_string', 'alloc::str::into_boxed_bytes')
def m_sametext(I, st, f, a):
    return [(a[0], st)]


@model('@slice::join', '@slice::concat', '@slice::Join::join', '@slice::Concat::concat', '@str::join_generic_copy', '@slice::[T]::join', '@slice::[T]::concat')
def m_join(I, st, f, a):
    v = I.deep(st, plain(I, st, a[0]))
    sep = plain(I, st, a[1]) if len(a) > 1 else S('str', '')
    if isinstance(sep, Poly):
        sep = charof(sep)
    return [(S('flat', v, sep), st)]


def out_items(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    if nm == 'write_fmt':
        return items_of(a[1])
    if nm in ('write_char',):
        return (charof(a[1]),)
    x = bytetext(plain(I, st, a[1]))
    return (S('text', x),)


def result_of(c):
    """Ok(()) unless c"""
    return ite(c, S('call', 'failed', ()), OKU) if c is not FALSE else OKU


def m_write(I, st, f, a):
    its = out_items(I, st, f, a)
    if its is None:
        return None
    t = selfty(f) or ''
    b = base_ty(t)
    path = strip_generics(f['path'])
    if b in ('String', 'Formatter', 'str') or 'fmt::Formatter' in path or 'string::String' in path:
        # cannot fail (String), or its failure is passed on by the surrounding machinery (Formatter)
        def app(old):
            for x in its:
                old = addtext(old, x)
            return old
        I.storep(st, a[0], app(I.loadp(st, a[0])))
        return [(UNIT if path.split('::')[-1] in ('push_str', 'push') else OKU, st)]
    p = a[0]
    v = I.loadp(st, p)
    for _ in range(4):
        if isinstance(v, Ref):
            p, v = v, I.loadp(st, v)
    h, buf = handle(v)
    tgt = I.refto(FILES, ('i', h))
    old = I.loadp(st, tgt)
    for x in its:
        old = addtext(old, x)
    I.storep(st, tgt, old)
    fail = S('iofail', h)
    return [(OKU if buf else S('call', 'std::io::write', (h,)), st)]


for _p in ('std::io::Write::', 'core::fmt::Write::', 'std::fmt::Write::'):
    for _n in ('write_fmt', 'write_all', 'write_str', 'write_char', 'write'):
        MODELS[_p + _n] = m_write
for _p in ('std::fmt::Formatter::', 'core::fmt::Formatter::'):
    for _n in ('write_fmt', 'write_str', 'write_char', 'pad'):
        MODELS[_p + _n] = m_write
for _p in ('std::string::String::', 'alloc::string::String::'):
    MODELS[_p + 'push_str'] = m_write


@model('@string::String::push')
def m_pushchar(I, st, f, a):
    I.storep(st, a[0], S('push', I.loadp(st, a[0]), charof(a[1])))
    return [(UNIT, st)]


@model('@io::BufWriter::new', '@io::LineWriter::new', '@io::BufWriter::with_capacity')
def m_bufw(I, st, f, a):
    return [(S('bufw', a[-1]), st)]


@model('@io::Write::flush', '@fs::File::sync_all', '@fs::File::sync_data')
def m_flush(I, st, f, a):
    p = a[0]
    v = I.loadp(st, p)
    for _ in range(4):
        if isinstance(v, Ref):
            p, v = v, I.loadp(st, v)
    h, buf = handle(v)
    return [(S('call', 'std::io::write', (h,)) if buf else OKU, st)]


# file handles
def m_open(I, st, f, a):
    nm = strip_generics(f['path']).split('::')[-1]
    if nm == 'new':
        return [(S('openoptions', ()), st)]
    if nm in ('write', 'create', 'truncate', 'append', 'read', 'create_new'):
        p = a[0]
        b = I.loadp(st, p)
        if not (isinstance(b, Sym) and b.h == 'openoptions'):
            return None
        items = dict(b.a[1])
        items[nm] = a[1]
        I.storep(st, p, S('openoptions', tuple(sorted((k, v) for k, v in items.items() if v is not FALSE))))
        return [(p, st)]
    if nm == 'open':
        b = I.loadp(st, a[0])
        if not (isinstance(b, Sym) and b.h == 'openoptions'):
            return None
        return opened(I, st, b.a[1], a[1])


CREATE = tuple(sorted((k, TRUE) for k in ('write', 'create', 'truncate')))


def opened(I, st, how, path):
    r = S('call', 'std::fs::open', (tuple(k for k, v in how if v is TRUE), plain(I, st, path)))
    h = payload_ok(r)
    if ('truncate', TRUE) in how or ('create_new', TRUE) in how:
        I.storep(st, I.refto(FILES, ('i', h)), S('emptyvec'))
    return [(r, st)]


def payload_ok(r):
    return read1(read1(r, ('d', 'Ok')), ('f', '0'))


for _n in ('new', 'write', 'create', 'truncate', 'append', 'read', 'create_new', 'open'):
    MODELS['std::fs::OpenOptions::' + _n] = m_open
    MODELS['std::fs::File::options'] = lambda I, st, f, a: [(S('openoptions', ()), st)]


@model('@fs::File::create')
def m_create(I, st, f, a):
    return opened(I, st, CREATE, a[0])


@model('@fs::write')
def m_fswrite(I, st, f, a):
    (r, st), = opened(I, st, CREATE, a[0])
    h = payload_ok(r)
    I.storep(st, I.refto(FILES, ('i', h)), addtext(S('emptyvec'), S('text', plain(I, st, a[1]))))
    g = isvar(r, 'Ok')
    return [(ite(g, S('call', 'std::io::write', (h,)), S('call', 'failed', ())), st)]


# ----------------------------------------------------------------- logging
def m_logger(I, st, f, a):
    """setting up the logger has no effect on anything that is compared"""
    nm = strip_generics(f['path']).split('::')[-1]
    if nm in ('init',):
        return [(UNIT, st)]
    if nm == 'try_init':
        return [(OKU, st)]
    return [(a[0] if a and nm != 'new' else S('logger'), st)]


for _n in ('new', 'from_env', 'from_default_env', 'filter_level', 'filter', 'filter_module', 'parse_default_env', 'parse_env', 'parse_filters', 'format_module_path', 'format_timestamp',
           'format_level', 'format_target', 'format_indent', 'format', 'write_style', 'target', 'is_test', 'init', 'try_init', 'format_timestamp_millis', 'format_timestamp_secs'):
    MODELS['env_logger::Builder::' + _n] = m_logger
for _n in ('init', 'try_init'):
    MODELS['env_logger::' + _n] = m_logger
