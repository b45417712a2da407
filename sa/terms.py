"""Value domain of the abstract interpreter.

All values are hash-consed (identity equality).  Numbers are polynomials over
atoms, booleans and guarded values are multi-terminal decision diagrams over
guard literals, aggregates are trees, unknown memory is a symbolic term, and a
partially overwritten unknown object is an Overlay.  Nothing is ever evaluated
on concrete inputs: a value describes what every execution computes.
"""
import hashlib
from fractions import Fraction

_intern = {}
_uid = [0]


class T:
    __slots__ = ('uid', 'h', 'a', '_rep', '_atoms')

    def __repr__(self):
        return rep(self)


class Sym(T):
    __slots__ = ()


class Poly(T):
    __slots__ = ()


class Agg(T):
    __slots__ = ()
    # a = (kind, variant, names, vals)


class Ref(T):
    __slots__ = ()
    # a = (obj, proj)


class MT(T):
    __slots__ = ()
    # a = (var, hi, lo)


class Overlay(T):
    __slots__ = ()
    # a = (base, writes)


def _mk(cls, key):
    k = (cls, key)
    v = _intern.get(k)
    if v is None:
        v = cls.__new__(cls)
        v.a = key
        v.h = key[0] if key else None
        _uid[0] += 1
        v.uid = _uid[0]
        v._rep = None
        v._atoms = None
        _intern[k] = v
    return v


def S(*key):
    return _mk(Sym, key)


TRUE = S('true')
FALSE = S('false')
UNIT = S('unit')
NULL = S('null')
UNDEF = S('undef')
BOT = S('bottom')


def is_bool_leaf(v):
    return v is TRUE or v is FALSE


# ---------------------------------------------------------------- polynomials
def _poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: mkey(mc[0])))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    return _mk(Poly, items)


def mkey(m):
    return (sum(e for _, e in m), tuple((a.uid, e) for a, e in m))


def const(c):
    if isinstance(c, str):
        if c in ('inf', '-inf', 'NaN', 'nan'):
            return S('f64', c)
        c = Fraction(c)
    c = Fraction(c)
    return _poly({(): c}) if c else _poly({})


def is_num_leaf(v):
    return isinstance(v, Poly) or (isinstance(v, Sym) and not is_bool_leaf(v))


def pdict(v):
    if isinstance(v, Poly):
        return dict(v.a)
    return {((v, 1),): Fraction(1)}


def is_const(v):
    return isinstance(v, Poly) and (len(v.a) == 0 or (len(v.a) == 1 and v.a[0][0] == ()))


def cval(v):
    return v.a[0][1] if v.a else Fraction(0)


def padd(x, y, sy=1):
    d = pdict(x)
    for m, c in pdict(y).items():
        d[m] = d.get(m, 0) + sy * c
    return _poly(d)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].uid))


def pmul(x, y):
    d = {}
    for m1, c1 in pdict(x).items():
        for m2, c2 in pdict(y).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _poly(d)


def pscale(x, c):
    return _poly({m: k * c for m, k in pdict(x).items()})


ZERO = const(0)
ONE = const(1)
INF = S('f64', 'inf')


def pinv(x):
    if is_const(x) and cval(x) != 0:
        return const(1 / cval(x))
    if isinstance(x, Sym):
        return _poly({((x, -1),): Fraction(1)})
    if isinstance(x, Poly) and len(x.a) == 1:
        m, c = x.a[0]
        return _poly({tuple((a, -e) for a, e in m): 1 / c})
    if not x.a:
        return S('recip0')
    # pull out content
    c = x.a[-1][1]
    return pmul(const(1 / c), _poly({((pscale(x, 1 / c), -1),): Fraction(1)})) if c != 1 else _poly({((x, -1),): Fraction(1)})


# --------------------------------------------------- guarded values (MTBDD)
_ite_cache = {}


def mt(var, hi, lo):
    if hi is lo or lo is BOT:
        return hi
    if hi is BOT:
        return lo
    # continuity normalisation: gt(q) ? A : B with A-B = c*q is the same value
    # as gt(-q) ? B : A; keep the orientation with the smaller literal.
    if var.h == 'gt' and is_num_leaf(hi) and is_num_leaf(lo) and not is_bool_leaf(hi) and not is_bool_leaf(lo):
        q = var.a[1]
        d = padd(hi, lo, -1)
        if isinstance(d, (Poly, Sym)):
            dd, qq = pdict(d), pdict(q)
            if set(dd) == set(qq) and dd:
                r = {dd[m] / qq[m] for m in dd}
                if len(r) == 1 and sign_of(q) < 0:
                    return mt(S('gt', pscale(q, -1)), lo, hi)
    return _mk(MT, (var, hi, lo))


def sign_of(q):
    """+1/-1: sign of the leading coefficient (in an order independent of creation)."""
    items = [(m, c) for m, c in pdict(q).items() if m != ()]
    if not items:
        return 1
    m, c = max(items, key=lambda mc: tuple((rep(a), e) for a, e in mc[0]))
    return 1 if c > 0 else -1


def top(*vs):
    best = None
    for v in vs:
        if isinstance(v, MT) and (best is None or v.a[0].uid < best.uid):
            best = v.a[0]
    return best


def cof(v, var, b):
    if isinstance(v, MT) and v.a[0] is var:
        return v.a[1] if b else v.a[2]
    return v


def ite(c, a, b):
    """c: bool diagram"""
    if c is TRUE or a is b or b is BOT:
        return a
    if c is FALSE or a is BOT:
        return b
    k = (c, a, b)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    # structural join of like aggregates keeps trees, not guarded trees
    if isinstance(a, Agg) and isinstance(b, Agg) and a.a[:3] == b.a[:3] and len(a.a[3]) == len(b.a[3]):
        r = agg(a.a[0], a.a[1], a.a[2], tuple(ite(c, x, y) for x, y in zip(a.a[3], b.a[3])))
    elif (isinstance(a, Overlay) or isinstance(b, Overlay)) and not isinstance(a, MT) and not isinstance(b, MT):
        r = ovl_join(c, a, b)
    else:
        r = None
    if r is None:
        c0 = c if isinstance(c, MT) else as_bool(c)
        if not isinstance(c0, MT):
            return a if c0 is TRUE else b
        w = extremum(c0, a, b)
        if w is not None:
            c0, a, b = w
        v = top(c0, a, b)
        hi = ite(cof(c0, v, True), cof(a, v, True), cof(b, v, True))
        lo = ite(cof(c0, v, False), cof(a, v, False), cof(b, v, False))
        r = mt(v, hi, lo)
    _ite_cache[k] = r
    return r


def extremum(c, a, b):
    """the larger (smaller) of two numbers in one canonical form, however the comparison was written"""
    if isinstance(a, (MT, Agg, Ref, Overlay)) or isinstance(b, (MT, Agg, Ref, Overlay)) or not is_num_leaf(a) or not is_num_leaf(b) or is_bool_leaf(a) or is_bool_leaf(b) or 'f64' in (a.h, b.h):
        return None
    v, hi, lo = c.a
    if v.h not in ('gt', 'gti') or not (hi is TRUE and lo is FALSE or hi is FALSE and lo is TRUE):
        return None
    if hi is FALSE:
        a, b = b, a
    d = padd(a, b, -1)
    if is_const(d):
        return None
    q = v.a[1]
    if v.h == 'gt':
        up, down = norm_scale(d) is q, norm_scale(pscale(d, -1)) is q
    else:
        n = pscale(d, -1)
        up, down = d is q or padd(d, ONE) is q, n is q or padd(n, ONE) is q
    if not up and not down:
        return None
    x, y = (a, b) if sign_of(d) >= 0 else (b, a)
    c = gt(x, y, v.h == 'gti')
    return (c, x, y) if up else (c, y, x)


def _obase(v):
    return v.a[0] if isinstance(v, Overlay) else v


def ovl_join(c, a, b):
    if _obase(a) is not _obase(b):
        # an overlay on a common ancestor?
        return None
    base = _obase(a)
    wa = a.a[1] if isinstance(a, Overlay) else ()
    wb = b.a[1] if isinstance(b, Overlay) else ()
    if all(k[0] != 'i' for k, _ in wa + wb):
        keys = []
        for k, _ in wa + wb:
            if k not in keys:
                keys.append(k)
        out = base
        for k in keys:
            out = write1(out, k, ite(c, read1(a, k), read1(b, k)))
        return out
    # common prefix of index writes, then guarded writes
    n = 0
    while n < len(wa) and n < len(wb) and wa[n][0] == wb[n][0]:
        n += 1
    out = base
    for i in range(n):
        out = write1(out, wa[i][0], ite(c, wa[i][1], wb[i][1]))
    if n == len(wa) or n == len(wb):
        rest, cc = (wb[n:], bnot(c)) if n == len(wa) else (wa[n:], c)
        for k, v in rest:
            out = write1(out, k, ite(cc, v, read1(out, k)))
        return out
    for k, v in wa[n:]:
        out = write1(out, k, ite(c, v, read1(out, k)))
    nc = bnot(c)
    for k, v in wb[n:]:
        out = write1(out, k, ite(nc, v, read1(out, k)))
    return out


def as_bool(v):
    if v is TRUE or v is FALSE:
        return v
    if isinstance(v, MT):
        if isinstance(v.a[1], Sym) and isinstance(v.a[2], Sym) and is_bool_leaf(v.a[1]) and is_bool_leaf(v.a[2]):
            return v
        return ite(mt(v.a[0], TRUE, FALSE), as_bool(v.a[1]), as_bool(v.a[2]))
    if isinstance(v, Poly) and is_const(v):
        return TRUE if cval(v) != 0 else FALSE
    return mt(S('b', v), TRUE, FALSE)


def bnot(c):
    return ite(as_bool(c), FALSE, TRUE)


def band(a, b):
    return ite(as_bool(a), as_bool(b), FALSE)


def bor(a, b):
    return ite(as_bool(a), TRUE, as_bool(b))


def restrict(f, c):
    """simplify f under care set c"""
    memo = {}

    def go(f, c):
        if c is TRUE or not isinstance(f, MT):
            return f
        if c is FALSE:
            return f
        k = (f, c)
        if k in memo:
            return memo[k]
        v = top(f, c)
        ch, cl = cof(c, v, True), cof(c, v, False)
        if ch is FALSE:
            r = go(cof(f, v, False), cl)
        elif cl is FALSE:
            r = go(cof(f, v, True), ch)
        elif not (isinstance(f, MT) and f.a[0] is v):
            r = go(f, bor(ch, cl))
        else:
            r = mt(v, go(f.a[1], ch), go(f.a[2], cl))
        memo[k] = r
        return r
    return go(f, c)


def assume(f, c):
    """value of f when c holds, for every sub-value (used at leaves of aggregates too)"""
    if c is TRUE:
        return f
    if isinstance(f, MT):
        return restrict(f, c)
    if isinstance(f, Agg):
        return agg(f.a[0], f.a[1], f.a[2], tuple(assume(x, c) for x in f.a[3]))
    return f


def mapleaf(f, v, *rest):
    vs = (v,) + rest
    t = top(*vs)
    if t is None:
        return f(*vs)
    hi = mapleaf(f, *[cof(x, t, True) for x in vs])
    lo = mapleaf(f, *[cof(x, t, False) for x in vs])
    return ite(mt(t, TRUE, FALSE), hi, lo)


def leaves(v, c=TRUE):
    """[(guard, leaf)]"""
    if isinstance(v, MT):
        var = mt(v.a[0], TRUE, FALSE)
        return [(band(var, g), x) for g, x in leaves(v.a[1])] + [(band(bnot(var), g), x) for g, x in leaves(v.a[2])]
    return [(c, v)]


def leafset(v):
    out = []
    seen = set()

    def go(v):
        if v in seen:
            return
        seen.add(v)
        if isinstance(v, MT):
            go(v.a[1])
            go(v.a[2])
        else:
            out.append(v)
    go(v)
    return out


# ------------------------------------------------------------------ numerics
def num(v):
    return v


def add(a, b):
    return mapleaf(lambda x, y: _arith(x, y, lambda p, q: padd(p, q), '+'), a, b)


def sub(a, b):
    return mapleaf(lambda x, y: _arith(x, y, lambda p, q: padd(p, q, -1), '-'), a, b)


def mul(a, b):
    return mapleaf(lambda x, y: _arith(x, y, pmul, '*'), a, b)


def _arith(x, y, f, op):
    for v in (x, y):
        if is_bool_leaf(v) or not is_num_leaf(v):
            return S('op', op, x, y)
    if x.h == 'f64' or y.h == 'f64':
        if x.h == 'f64' and y.h != 'f64' and op in '+-':
            return x
        return S('op', op, x, y)
    return f(x, y)


def div(a, b, isint):
    if isint:
        def f(x, y):
            if is_const(x) and is_const(y) and cval(y) != 0:
                return const(int(cval(x) / cval(y)))
            return S('idiv', x, y)
        return mapleaf(f, a, b)
    return mapleaf(lambda x, y: _arith(x, y, lambda p, q: pmul(p, pinv(q)), '/'), a, b)


def neg(a):
    return mapleaf(lambda x: pscale(x, -1) if is_num_leaf(x) else S('op', 'neg', x), a)


def norm_scale(q):
    """divide by the positive leading magnitude"""
    items = [(m, c) for m, c in pdict(q).items() if m != ()]
    if not items:
        return q
    m, c = max(items, key=lambda mc: tuple((rep(a), e) for a, e in mc[0]))
    return pscale(q, 1 / abs(c))


def gt(a, b, isint=False, kind=None):
    """a > b as a bool diagram"""
    def f(x, y):
        if x is y:
            return FALSE
        if x.h == 'f64' or y.h == 'f64':
            if x is INF and y.h != 'f64':
                return mt(S('gtinf', y), TRUE, FALSE) if False else TRUE if is_const(y) else mt(S('gtv', x, y), TRUE, FALSE)
            return mt(S('gtv', x, y), TRUE, FALSE)
        if not is_num_leaf(x) or not is_num_leaf(y) or is_bool_leaf(x) or is_bool_leaf(y):
            return mt(S('gtv', x, y), TRUE, FALSE)
        q = padd(x, y, -1)
        if is_const(q):
            return TRUE if cval(q) > 0 else FALSE
        if isint:
            if sign_of(q) < 0:
                return bnot(mt(S('gti', padd(ONE, q, -1)), TRUE, FALSE))
            return mt(S('gti', q), TRUE, FALSE)
        q = norm_scale(q)
        k = kind or 'gt'
        # create both orientations next to each other in the variable order
        if sign_of(q) < 0:
            S(k, pscale(q, -1))
            return mt(S(k, q), TRUE, FALSE)
        r = S(k, q)
        S(k, pscale(q, -1))
        return mt(r, TRUE, FALSE)
    return mapleaf(f, a, b)


def eq(a, b, ty=None):
    def f(x, y):
        if x is y:
            return TRUE
        if is_bool_leaf(x) and is_bool_leaf(y):
            return FALSE
        if is_bool_leaf(x) or is_bool_leaf(y):
            c, o = (x, y) if is_bool_leaf(x) else (y, x)
            r = as_bool(o)
            return r if c is TRUE else bnot(r)
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.a[0] == y.a[0] and x.a[1] != y.a[1]:
                return FALSE
            if x.a[:3] == y.a[:3]:
                r = TRUE
                for p, q in zip(x.a[3], y.a[3]):
                    r = band(r, eq(p, q))
                return r
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Agg) and p.a[1] is not None and isinstance(q, Sym):
                r = isvar(q, p.a[1])
                for n, v in zip(p.a[2], p.a[3]):
                    r = band(r, eq(read(q, (('d', p.a[1]), ('f', n))), v))
                return r
        if x.h == 'str' and y.h == 'str':
            return FALSE
        for p, q in ((x, y), (y, x)):
            if p is NULL:
                return isnull(q)
        if isinstance(x, Ref) or isinstance(y, Ref):
            if isinstance(x, Ref) and isinstance(y, Ref) and x.a[0] != y.a[0] and x.a[0][0] != 'H' and y.a[0][0] != 'H':
                return FALSE
            return mt(S('eqv', *sorted((x, y), key=lambda t: t.uid)), TRUE, FALSE)
        if is_num_leaf(x) and is_num_leaf(y) and x.h not in ('str', 'f64', 'null', 'fn') and y.h not in ('str', 'f64', 'null', 'fn'):
            q = padd(x, y, -1)
            if is_const(q):
                return TRUE if cval(q) == 0 else FALSE
            if ty in ('usize', 'u64', 'u32', 'u8', 'u16', 'u128') and isinstance(q, Sym):
                return bnot(gt(q, ZERO, True))
            if sign_of(q) < 0:
                q = pscale(q, -1)
            return mt(S('eq', norm_scale(q)), TRUE, FALSE)
        return mt(S('eqv', *sorted((x, y), key=lambda t: t.uid)), TRUE, FALSE)
    return mapleaf(f, a, b)


def isnull(p):
    def f(x):
        if x is NULL:
            return TRUE
        if isinstance(x, Ref):
            return FALSE
        return mt(S('null?', x), TRUE, FALSE)
    return mapleaf(f, p)


def fmax(a, b):
    def f(x, y):
        if x is y:
            return x
        for p, q in ((x, y), (y, x)):
            if p is INF:
                return p
        if is_num_leaf(x) and is_num_leaf(y) and x.h != 'f64' and y.h != 'f64':
            c = gt(x, y)
            return ite(c, x, y)
        return S('max', *sorted((x, y), key=lambda t: t.uid))
    return mapleaf(f, a, b)


def fmin(a, b):
    return neg(fmax(neg(a), neg(b)))


# ---------------------------------------------------------------- aggregates
def agg(kind, variant, names, vals):
    if kind == 'tuple' and not vals:
        return UNIT
    return _mk(Agg, (kind, variant, tuple(names), tuple(vals)))


def tup(*vals):
    return agg('tuple', None, tuple(str(i) for i in range(len(vals))), vals)


def some(v):
    return agg('core::option::Option', 'Some', ('0',), (v,))


NONE = agg('core::option::Option', 'None', (), ())


def ok(v):
    return agg('core::result::Result', 'Ok', ('0',), (v,))


def err(v):
    return agg('core::result::Result', 'Err', ('0',), (v,))


def agg_get(a, name):
    return a.a[3][a.a[2].index(name)]


def agg_set(a, name, v):
    i = a.a[2].index(name)
    return agg(a.a[0], a.a[1], a.a[2], a.a[3][:i] + (v,) + a.a[3][i + 1:])


FVER = {}  # current field versions, installed by the interpreter


def read1(v, k):
    """one projection step"""
    if isinstance(v, MT):
        return mapleaf(lambda x: read1(x, k), v)
    if isinstance(v, Agg):
        if k[0] == 'f' and k[1] in v.a[2]:
            return agg_get(v, k[1])
        if k[0] == 'd':
            if v.a[1] == k[1]:
                return v
            return BOT
        if k[0] == 'i' and v.a[0] == 'array' and is_const(k[1]):
            i = int(cval(k[1]))
            if i < len(v.a[3]):
                return v.a[3][i]
        if k[0] == 'f':
            return S('fld', v, k[1])
        return S('proj', v, k)
    if isinstance(v, Overlay):
        base, ws = v.a
        acc = []
        for kk, val in reversed(ws):
            if kk == k:
                r = val
                break
            if kk[0] == 'i' and k[0] == 'i':
                c = eq(kk[1], k[1], 'usize')
                if c is TRUE:
                    r = val
                    break
                if c is FALSE:
                    continue
                acc.append((c, val))
        else:
            r = read1(base, k)
        for c, val in reversed(acc):
            r = ite(c, val, r)
        return r
    if v is BOT:
        return BOT
    if k[0] == 'f':
        if isinstance(v, Sym) and v.h == 'fldver':
            pass
        ver = FVER.get(k[1])
        if ver is not None:
            return S('fld', v, k[1], ver)
        return S('fld', v, k[1])
    if k[0] == 'd':
        return S('as', v, k[1])
    if k[0] == 'i':
        return idx(v, k[1])
    return S('proj', v, k)


def idx(s, i):
    if isinstance(s, MT):
        return mapleaf(lambda x: idx(x, i), s)
    if isinstance(i, MT):
        return mapleaf(lambda x: idx(s, x), i)
    if isinstance(s, Sym):
        if s.h == 'vecof':
            return subst(s.a[2], {s.a[3]: i})
        if s.h == 'repeat':
            return s.a[1]
        if s.h == 'mapidx':
            return ite(gt(s.a[2], i, True), subst(s.a[3], {s.a[4]: i}), idx(s.a[1], i))
        if s.h == 'sub':
            return idx(s.a[1], add(s.a[2], i))
        if s.h == 'push':
            c = eq(i, length(s.a[1]), 'usize')
            if c is TRUE:
                return s.a[2]
            if c is FALSE and is_const(i) and is_const(length(s.a[1])) and cval(i) < cval(length(s.a[1])):
                return idx(s.a[1], i)
    if isinstance(s, Overlay):
        return read1(s, ('i', i))
    if isinstance(s, Agg) and s.a[0] == 'array' and is_const(i) and 0 <= cval(i) < len(s.a[3]) and cval(i) == int(cval(i)):
        return s.a[3][int(cval(i))]
    return S('idx', s, i)


def length(s):
    if isinstance(s, MT):
        return mapleaf(length, s)
    if isinstance(s, Overlay):
        return length(s.a[0])
    if isinstance(s, Agg) and s.a[0] == 'array':
        return const(len(s.a[3]))
    if isinstance(s, Sym):
        if s.h == 'vecof':
            return s.a[1]
        if s.h == 'repeat':
            return s.a[2]
        if s.h == 'emptyvec':
            return ZERO
        if s.h == 'push':
            return add(length(s.a[1]), ONE)
        if s.h == 'inserted':
            return add(length(s.a[1]), ONE)
        if s.h == 'removed':
            return sub(length(s.a[1]), ONE)
        if s.h in ('sorted', 'mapidx', 'reversed'):
            return length(s.a[1])
        if s.h == 'shuffled':
            return length(s.a[2])
        if s.h == 'swap_removed':
            return sub(length(s.a[1]), ONE)
        if s.h == 'sub':
            hi = s.a[3] if s.a[3] is not None else length(s.a[1])
            return sub(hi, s.a[2])
        if s.h == 'resized':
            return s.a[2]
        if s.h == 'concat':
            return add(length(s.a[1]), length(s.a[2]))
    return S('len', s)


def write1(v, k, val):
    if isinstance(v, Agg):
        if k[0] == 'f' and k[1] in v.a[2]:
            return agg_set(v, k[1], val)
        if k[0] == 'd':
            return val
        if k[0] == 'i' and v.a[0] == 'array' and is_const(k[1]) and int(cval(k[1])) < len(v.a[3]):
            i = int(cval(k[1]))
            return agg(v.a[0], v.a[1], v.a[2], v.a[3][:i] + (val,) + v.a[3][i + 1:])
    if isinstance(v, MT):
        return mapleaf(lambda x: write1(x, k, val), v)
    base, ws = (v.a if isinstance(v, Overlay) else (v, ()))
    if k[0] == 'i':
        # keep write order; drop an identical earlier key when no possibly
        # aliasing write lies in between
        out = []
        for kk, vv in ws:
            if kk == k:
                continue
            out.append((kk, vv))
        if not any(kk[0] == 'i' and kk != k for kk, _ in ws) and val is read1(base, k):
            pass
        else:
            out.append((k, val))
    else:
        out = [(kk, vv) for kk, vv in ws if kk != k]
        if val is not read1(base, k):
            out.append((k, val))
            out.sort(key=lambda kv: (str(kv[0][0]), str(kv[0][1])) if kv[0][0] != 'i' else ('i', ''))
    if not out:
        return base
    return _mk(Overlay, (base, tuple(out)))


def read(v, proj):
    for k in proj:
        v = read1(v, k)
    return v


def write(v, proj, val):
    if not proj:
        return val
    k = proj[0]
    return write1(v, k, write(read1(v, k), proj[1:], val))


# -------------------------------------------------------------- substitution
def children(v):
    return v.a


def subst(v, m, memo=None):
    """replace Syms by terms, rebuilding through the normalising constructors"""
    if memo is None:
        memo = {}
    return _subst(v, m, memo)


def _subst(v, m, memo):
    if isinstance(v, tuple):
        return tuple(_subst(x, m, memo) for x in v)
    if not isinstance(v, T):
        return v
    if v in m:
        return m[v]
    if v in memo:
        return memo[v]
    if not (atoms(v) & m.keys()):
        memo[v] = v
        return v
    if isinstance(v, Poly):
        r = ZERO
        for mono, c in v.a:
            t = const(c)
            for a, e in mono:
                x = _subst(a, m, memo)
                if e > 0:
                    for _ in range(e):
                        t = mul(t, x)
                else:
                    for _ in range(-e):
                        t = div(t, x, False)
            r = add(r, t)
    elif isinstance(v, MT):
        var = _subst(v.a[0], m, memo)
        r = ite(relit(var), _subst(v.a[1], m, memo), _subst(v.a[2], m, memo))
    elif isinstance(v, Agg):
        r = agg(v.a[0], v.a[1], v.a[2], _subst(v.a[3], m, memo))
    elif isinstance(v, Overlay):
        r = _subst(v.a[0], m, memo)
        for k, val in v.a[1]:
            r = write1(r, _subst(k, m, memo), _subst(val, m, memo))
    elif isinstance(v, Ref):
        r = mkref(_subst(v.a[0], m, memo), _subst(v.a[1], m, memo))
    else:
        a = v.a
        if a[0] == 'idx':
            r = idx(_subst(a[1], m, memo), _subst(a[2], m, memo))
        elif a[0] == 'len':
            r = length(_subst(a[1], m, memo))
        elif a[0] == 'fld' and len(a) == 3:
            b = _subst(a[1], m, memo)
            r = S('fld', b, a[2]) if isinstance(b, Sym) else read1(b, ('f', a[2]))
        elif a[0] == 'dist':
            r = dist(_subst(a[1], m, memo), _subst(a[2], m, memo))
        else:
            r = S(*[_subst(x, m, memo) for x in a])
    memo[v] = r
    return r


def mapconst(v, f, memo):
    """rebuild a term with every additive constant c replaced by f(c)"""
    if isinstance(v, tuple):
        return tuple(mapconst(x, f, memo) for x in v)
    if not isinstance(v, T):
        return v
    if v in memo:
        return memo[v]
    if isinstance(v, Poly):
        r = ZERO
        for mono, c in v.a:
            if not mono:
                r = add(r, const(f(c)))
                continue
            t = const(c)
            for a, e in mono:
                x = mapconst(a, f, memo)
                for _ in range(abs(e)):
                    t = mul(t, x) if e > 0 else div(t, x, False)
            r = add(r, t)
    elif isinstance(v, MT):
        r = ite(relit(mapconst(v.a[0], f, memo)), mapconst(v.a[1], f, memo), mapconst(v.a[2], f, memo))
    elif isinstance(v, Agg):
        r = agg(v.a[0], v.a[1], v.a[2], mapconst(v.a[3], f, memo))
    elif isinstance(v, Overlay):
        r = mapconst(v.a[0], f, memo)
        for k, val in v.a[1]:
            r = write1(r, mapconst(k, f, memo), mapconst(val, f, memo))
    elif isinstance(v, Ref):
        r = mkref(mapconst(v.a[0], f, memo), mapconst(v.a[1], f, memo))
    else:
        a = v.a
        if a[0] == 'idx':
            r = idx(mapconst(a[1], f, memo), mapconst(a[2], f, memo))
        elif a[0] == 'len':
            r = length(mapconst(a[1], f, memo))
        elif a[0] == 'dist':
            r = dist(mapconst(a[1], f, memo), mapconst(a[2], f, memo))
        elif a[0] in ('gt', 'gti', 'agt', 'eq') and isinstance(a[1], Poly):
            p = mapconst(a[1], f, memo)
            r = S(a[0], p) if isinstance(p, Poly) and not is_const(p) else S(*[mapconst(x, f, memo) for x in a])
        else:
            r = S(*[mapconst(x, f, memo) for x in a])
    memo[v] = r
    return r


def constants(*terms):
    out, seen, todo = set(), set(), list(terms)
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if isinstance(v, Poly):
                for mono, c in v.a:
                    if not mono:
                        out.add(c)
                    todo.extend(a for a, e in mono)
            else:
                todo.extend(v.a)
    return out


def relit(var):
    """rebuild a literal after substitution"""
    if isinstance(var, MT) or is_bool_leaf(var):
        return as_bool(var)
    h = var.h
    if h == 'gt':
        return gt(var.a[1], ZERO)
    if h == 'agt':
        return gt(var.a[1], ZERO, kind='agt')
    if h == 'gti':
        return gt(var.a[1], ZERO, True)
    if h == 'eq':
        return eq(var.a[1], ZERO)
    if h == 'eqv':
        return eq(var.a[1], var.a[2])
    if h == 'null?':
        return isnull(var.a[1])
    if h == 'b':
        return as_bool(var.a[1])
    if h == 'is':
        return isvar(var.a[1], var.a[2])
    return mt(var, TRUE, FALSE)


def isvar(v, name):
    def f(x):
        if isinstance(x, Agg):
            return TRUE if x.a[1] == name else FALSE
        if name == 'Err':
            return bnot(mt(S('is', x, 'Ok'), TRUE, FALSE))
        if name == 'None':
            return bnot(mt(S('is', x, 'Some'), TRUE, FALSE))
        if name == 'Greater':
            return mt(S('is', x, name), TRUE, FALSE)
        return mt(S('is', x, name), TRUE, FALSE)
    return mapleaf(f, v)


def dist(a, b):
    def f(x, y):
        return S('dist', *sorted((x, y), key=lambda t: rep(t)))
    return mapleaf(f, a, b)


def mkref(obj, proj=()):
    if obj[0] == 'H' and not proj:
        return obj[1]
    return _mk(Ref, (obj, tuple(proj)))


def atoms(v):
    """set of all T sub-terms (Syms) occurring in v, including itself"""
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            if isinstance(x, (T, tuple)):
                r |= atoms(x)
        return r
    if not isinstance(v, T):
        return frozenset()
    if v._atoms is not None:
        return v._atoms
    r = set()
    if isinstance(v, Sym):
        r.add(v)
    if isinstance(v, Poly):
        for mono, _ in v.a:
            for a, _e in mono:
                r |= atoms(a)
    else:
        for x in v.a:
            if isinstance(x, (T, tuple)):
                r |= atoms(x)
    v._atoms = frozenset(r)
    return v._atoms


def contains(v, s):
    return s in atoms(v)


# ------------------------------------------------------------------ printing
def rep(v):
    if isinstance(v, tuple):
        return '(' + ','.join(rep(x) for x in v) + ')'
    if not isinstance(v, T):
        return str(v)
    if v._rep is None:
        r = _rep(v)
        if len(r) > 4000:     # terms share subterms: written out in full they can be exponentially long
            r = '%s...#%s' % (r[:2000], hashlib.md5(r.encode()).hexdigest())
        v._rep = r
    return v._rep


def _rep(v):
    a = v.a
    if isinstance(v, Poly):
        if not a:
            return '0'
        out = []
        for m, c in sorted(a, key=lambda mc: tuple((rep(x), e) for x, e in mc[0])):
            ms = '*'.join(rep(x) + ('' if e == 1 else '^%d' % e) for x, e in m)
            cs = cstr(c)
            if not ms:
                out.append(cs)
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append(cs + '*' + ms)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if isinstance(v, MT):
        return '[%s ? %s : %s]' % (rep(a[0]), rep(a[1]), rep(a[2]))
    if isinstance(v, Agg):
        n = (a[0].split('::')[-1] if isinstance(a[0], str) else rep(a[0])) + ('.' + str(a[1]) if a[1] else '')
        return '%s{%s}' % (n, ','.join('%s:%s' % (k, rep(x)) for k, x in zip(a[2], a[3])))
    if isinstance(v, Ref):
        return '&%s%s' % (rep(a[0]), ''.join(_prep(k) for k in a[1]))
    if isinstance(v, Overlay):
        return '%s<%s>' % (rep(a[0]), ','.join('%s:=%s' % (_prep(k), rep(x)) for k, x in a[1]))
    h = a[0]
    if h == 'fld':
        return '%s.%s%s' % (rep(a[1]), a[2], '' if len(a) == 3 else '@' + rep(a[3]))
    if h == '*':
        return '(*%s)' % rep(a[1])
    if h == 'idx':
        return '%s[%s]' % (rep(a[1]), rep(a[2]))
    if h == 'arg':
        return str(a[1])
    if h == 'str':
        return repr(a[1])
    if h in ('true', 'false', 'unit', 'null', 'undef', 'bottom'):
        return h
    return '%s(%s)' % (h, ','.join(rep(x) for x in a[1:]))


def cstr(c):
    if c.denominator == 1 and abs(c) < 10 ** 15:
        return str(c)
    return '%.9g' % float(c)


def _prep(k):
    if k[0] == 'f':
        return '.' + k[1]
    if k[0] == 'i':
        return '[%s]' % rep(k[1])
    if k[0] == 'd':
        return ' as ' + str(k[1])
    return str(k)


# the variants of the type of a matched value: by value, and every variant list seen
VARIANTS, VARIANT_LISTS = {}, set()


def known_variants(v, names):
    if not names:
        return
    VARIANT_LISTS.add(names)
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Sym) and x.h == 'ite':
            todo += [x.a[2], x.a[3]]
        elif isinstance(x, T):
            VARIANTS[x] = names
