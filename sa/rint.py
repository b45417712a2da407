"""Random interpretation of abstract terms (global value numbering by random
interpretation, after Gulwani and Necula, POPL 2004).

Two terms of the value domain that are not the same normal form are compared by
giving every uninterpreted atom a value drawn from a hash of its name and
arguments, under many independent seeds, and evaluating both.  Differing values
are a certificate that the two terms are different functions of the program
state; agreement under all seeds is taken as equality.  No code of the analysed
program is run: what is evaluated is the summary the abstract interpreter
computed.
"""
import hashlib
from fractions import Fraction as Q
import math
import os
import time
from terms import *
import terms as tm


class Unsupported(Exception):
    pass


class PQ(Q):
    """a number that stands for a part of an unknown value: prov = ('fld'|'elem', canonical parent, name|index)"""
    __slots__ = ('prov',)


def known_part(x, prov):
    if prov is None:
        return x
    if isinstance(x, Q):
        r = PQ(x.numerator, x.denominator)
        r.prov = prov
        return r
    if isinstance(x, Seq) and x.prov is None:
        x.prov = prov
    return x


def provenance(x):
    return getattr(x, 'prov', None) if isinstance(x, (PQ, Seq, Obj)) else None


BIG = Q(10) ** 30


def shape(v):
    """name of an atom with indices and binders erased; groups atoms into kinds"""
    if isinstance(v, tuple):
        return '(' + ','.join(shape(x) for x in v) + ')'
    if not isinstance(v, T):
        return str(v)
    if isinstance(v, Poly):
        return '#'
    if isinstance(v, MT):
        return '?'
    h = v.h
    if h == 'idx':
        return shape(v.a[1]) + '[]'
    if h in ('K', 'β'):
        return '#'
    if h in ('fld',):
        return shape(v.a[1]) + '.' + v.a[2]
    if isinstance(v, Overlay):
        return shape(tm._obase(v))
    return rep(v) if len(rep(v)) < 200 else h


def lastname(v):
    """last field name on the access path of an atom, with one [] per element access"""
    suf = ''
    while True:
        if isinstance(v, Overlay):
            v = tm._obase(v)
            continue
        if not isinstance(v, Sym):
            return None
        if v.h == 'fld':
            return v.a[2] + suf
        if v.h in ('idx', 'streamitem', 'item'):
            suf += '[]'
            v = v.a[1]
            continue
        if v.h in ('*', 'as', 'sel'):
            v = v.a[1]
            continue
        if v.h == 'arg':
            return v.a[1] + suf
        return None


def strconst(p):
    """p is the difference of a text and a constant text -> (text, constant)"""
    if not isinstance(p, Poly) or len(p.a) != 2 or any(len(m) != 1 or m[0][1] != 1 for m, c in p.a):
        return None
    (x, cx), (y, cy) = ((m[0][0], c) for m, c in p.a)
    if cx + cy != 0:
        return None
    for a, b in ((x, y), (y, x)):
        s = a.a[1] if isinstance(a, Sym) and a.h == '*' else a
        if isinstance(s, Sym) and s.h == 'str':
            return b, s.a[1]
    return None


class Kinds:
    """which atoms are used as indices or counts (small integers)"""

    def __init__(self, terms, ints=()):
        self.ints = set(ints)
        self.variants = {}
        self.full = {}
        self.opts = set()
        self.eqints = set()
        self.ties = set()
        self.infs = set()
        self.strs = set()
        self.seqs = set()
        self.structs = {}
        notseq = set()
        seen = set()
        todo = list(terms)
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                todo.extend(v)
                continue
            if not isinstance(v, T) or v in seen:
                continue
            seen.add(v)
            if isinstance(v, Agg) and v.a[2] and len(v.a[2]) == len(v.a[3]) and v.a[0] not in ('closure', 'array', 'tuple') and v.a[1] is None \
                    and not str(v.a[2][0]).isdigit():
                self.structs[frozenset(v.a[2])] = (v.a[0], tuple(v.a[2]))
            if isinstance(v, Sym):
                if v.h in ('idx', 'vecof', 'streamitem'):
                    n = lastname(v.a[1])
                    if n and v.h == 'idx':
                        self.seqs.add(n)
                elif v.h.startswith('HashSet') or v.h.startswith('HashMap') or v.h in ('contains', 'streamlen', 'ret_HashSet_insert', 'ret_HashSet_remove'):
                    for y in v.a[1:2]:
                        n = lastname(y)
                        if n:
                            notseq.add(n)
                if v.h == 'idx':
                    self.mark(v.a[2])
                elif v.h in ('gti',):
                    self.mark(v.a[1])
                elif v.h == 'eq' and strconst(v.a[1]):
                    self.strs.add(strconst(v.a[1])[1])
                elif v.h == 'isinf':
                    keep = self.ints
                    self.ints = self.infs
                    self.mark(v.a[1])
                    self.ints = keep
                elif v.h in ('eq', 'agt', 'gt'):
                    keep = self.ints
                    self.ints = self.eqints if v.h == 'eq' else self.ties
                    self.mark(v.a[1])
                    self.ints = keep
                elif v.h in ('sum', 'all', 'vecof', 'fold'):
                    self.mark(v.a[1] if v.h != 'fold' else v.a[2])
                elif v.h in ('mapidx', 'rem', 'idiv'):
                    self.mark(v.a[2])
                    if v.h != 'mapidx':
                        self.mark(v.a[1])
                elif v.h == 'is':
                    if v.a[2] in ('Some', 'None'):
                        self.opts.add(shape(v.a[1]))
                        n = lastname(v.a[1])
                        if n and not n[0].isdigit():
                            self.opts.add('~' + n)
                    self.variants.setdefault(shape(v.a[1]), set()).add(v.a[2])
                    if v.a[1] in VARIANTS:
                        self.full[shape(v.a[1])] = VARIANTS[v.a[1]]
                todo.extend(v.a)
            elif isinstance(v, Poly):
                for m, c in v.a:
                    for a, e in m:
                        todo.append(a)
            elif isinstance(v, Overlay):
                for k, x in v.a[1]:
                    if k[0] == 'i':
                        self.mark(k[1])
                todo.append(v.a)
            else:
                todo.append(v.a)
        self.seqs -= notseq

    def variants_of(self, x, name):
        s = shape(x)
        if s in self.full and name in self.full[s]:
            return self.full[s]
        seen = self.variants.get(s, set()) | {name}
        for l in sorted(VARIANT_LISTS, key=lambda l: (len(l), l)):
            if seen <= set(l):
                return l
        return sorted(seen | {'_other'})

    def mark(self, v):
        if isinstance(v, MT):
            self.mark(v.a[1])
            self.mark(v.a[2])
        elif isinstance(v, Poly):
            for m, c in v.a:
                for a, e in m:
                    self.mark(a)
        elif isinstance(v, Sym) and v.h not in ('α',):
            self.ints.add(shape(v))
            n = lastname(v)
            if n:
                self.ints.add('~' + n)


class Seq:
    __slots__ = ('n', 'base', 'over', 'get', 'memo', 'prov')

    def __init__(self, n, get, over=None, base=None):
        self.n = n
        self.get = get
        self.over = over or {}
        self.memo = {}
        self.prov = None
        self.base = base        # (identity of the unknown sequence this one is a version of, reader of it)

    def at(self, i):
        i = Q(i)
        if i in self.over:
            return self.over[i]
        if i not in self.memo:
            self.memo[i] = self.get(i)
        return self.memo[i]

    def with_(self, i, v):
        return Seq(self.n, self.at, {i: v}, self.base)


class Obj:
    """unknown object with some fields overwritten"""
    __slots__ = ('base', 'over')

    def __init__(self, base, over):
        self.base, self.over = base, over


ABSENT = object()


class SetV:
    """set or map: unknown base (None: empty) with changed entries"""
    __slots__ = ('base', 'over')

    def __init__(self, base, over):
        self.base, self.over = base, over


def chars(x):
    if isinstance(x, Seq):
        return [x.at(i) for i in range(x.n)]
    if isinstance(x, tuple) and x and x[0] == 'str':
        return [('str', c) for c in x[1]]
    return [x]


class Env:
    """values of bound variables, innermost first, with the terms already evaluated under them"""
    __slots__ = ('up', 'own', 'memo')

    def __init__(self, up, own):
        self.up, self.own, self.memo = up, own, {}


class Model:
    def __init__(self, seed, kinds, maxn=3, tie=False):
        self.seed = seed
        self.kinds = kinds
        self.scale = (Q(1), Q(100), Q(100), Q(1, 100))[seed % 4]
        self.negp = (0, 0, 25)[seed % 3]
        self.maxn = maxn if seed % 5 else max(5, maxn)
        self.eqi = seed % 2 == 0
        self.wide = seed % 5 == 3
        self.uni = seed % 6 == 1       # most sizes and indices have one common value
        self.tie, self.tcov = tie, {}
        self.common = 1 + seed // 6 % self.maxn
        self.cov = {}
        self.wcov = {}
        self.cache = {}
        self.steps = 0
        self.strict = False
        self.given = {}
        self.hk = {}
        self.provs = {}
        self.canons = {}
        self.pointers = {}

    # ------------------------------------------------------------- hashing
    def hash(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=12).digest()
        return int.from_bytes(h, 'big')

    def lenof(self, c):
        h = self.hash('len', c)
        if self.uni and (h >> 20) % 10 < 7:
            return self.common
        return h % (self.maxn + 1)

    def numval(self, h, sh, nm):
        k = self.kinds
        if sh in k.opts or nm and ('~' + nm) in k.opts:
            if (h >> 50) % 3 == 0:
                return ('agg', 'core::option::Option', 'None', (), ())
            return ('agg', 'core::option::Option', 'Some', ('0',), (self.numval1(self.hash('payload', h), (sh or '') + '.0', '0', k),))
        x = self.numval1(h, sh, nm, k)
        if nm is not None:
            self.hk[str(x)] = nm
        if nm in k.seqs and self.lenof(str(x)) == 0:
            return self.seq(x)      # an unknown list that is empty is the empty list
        return x

    def numval1(self, h, sh, nm, k):
        if k.infs and (h >> 30) % 3 == 0 and (sh in k.infs or nm and ('~' + nm) in k.infs):
            return BIG              # tested for being infinite
        if self.uni and (h >> 20) % 10 < 7 and (sh in k.ints or sh in k.eqints or nm and (('~' + nm) in k.ints or ('~' + nm) in k.eqints)):
            return Q(self.common)
        if sh in k.ints or nm and ('~' + nm) in k.ints:
            return Q(h % (self.maxn + 1))
        if self.eqi and (sh in k.eqints or nm and ('~' + nm) in k.eqints):
            return Q(h % (self.maxn + 1))
        if self.tie and (sh in k.ties or nm and ('~' + nm) in k.ties):
            return Q(h % 3)         # compared values that are often the same
        x = Q(h % 999983 + 1, 997) * self.scale / 10
        if self.wide:
            x *= (Q(1, 10 ** 9), Q(1, 10 ** 5), 1, 1, 10 ** 3, 10 ** 6)[(h >> 60) % 6]
        if self.negp and (h >> 40) % 100 < self.negp:
            x = -x
        return x

    def canon(self, v, d=0):
        if type(v) is PQ or type(v) is Q:
            return str(v)
        if isinstance(v, (Obj, Seq, SetV)) or type(v) is tuple and v and v[0] == 'agg':
            m = self.canons.get(id(v))
            if m is None:
                m = self.canons[id(v)] = (v, self.canon1(v, d))
            return m[1]
        return self.canon1(v, d)

    def canon1(self, v, d=0):
        if isinstance(v, Seq):
            n = int(v.n)
            if v.base is not None and n > 0 and all(self.canon(v.at(i), d + 1) == self.canon(v.base[1](i), d + 1) for i in range(min(n, 12))):
                return v.base[0]
            cs = tuple(self.canon(v.at(i), d + 1) for i in range(min(n, 12)))
            if 0 < n <= 12:
                p = self.provof(v.at(0), cs[0])
                if p and p[0] == 'elem' and self.lenof(p[1]) == n and all(
                        self.provof(v.at(i), cs[i]) == ('elem', p[1], Q(i)) for i in range(n)):
                    return p[1]
            return ('seq', n, cs)
        if isinstance(v, SetV):
            return ('set', v.base, tuple(sorted((repr(k), 'absent' if x is ABSENT else self.canon(x, d + 1)) for k, x in v.over.items()
                    if self.has(SetV(v.base, {}), k) != (x is not ABSENT) or x is not True and x is not ABSENT)))
        if isinstance(v, Obj) and frozenset(v.over) in self.kinds.structs:
            n, fs = self.kinds.structs[frozenset(v.over)]
            return self.canon(('agg', n, None, fs, tuple(v.over[f] for f in fs)), d + 1)
        if isinstance(v, Obj):
            items = []
            for k in sorted(v.over):
                c = self.canon(v.over[k], d + 1)
                f = self.canon(self.field(v.base, k), d + 1)
                if c != f and not ((isinstance(c, bool) or c == ('seq', 0, ())) and sameval(self, c, f)):
                    items.append((k, c))
            b = self.canon(v.base, d + 1)
            return ('obj', b, tuple(items)) if items else b
        if isinstance(v, tuple):
            if v and v[0] == 'agg':
                cs = tuple(self.canon(x, d + 1) for x in v[4])
                if v[1] == 'array' and len(cs) <= 12:
                    return ('seq', len(cs), cs)
                if v[4] and v[2] is None and frozenset(v[3]) in self.kinds.structs:
                    for f, x, c in zip(v[3], v[4], cs):
                        p = self.provof(x, c)
                        if p and p[0] == 'fld' and p[2] == f:
                            if all(y == self.canon(self.field(p[1], g), d + 1) for g, y in zip(v[3], cs)):
                                return p[1]
                            break
                nm = v[3]
                if nm and not str(nm[0]).isdigit() and len(nm) == len(cs):
                    o = sorted(range(len(nm)), key=lambda i: nm[i])   # the order of the fields of a struct is immaterial
                    nm, cs = tuple(nm[i] for i in o), tuple(cs[i] for i in o)
                return ('agg', v[1].split('::')[-1] if isinstance(v[1], str) else v[1], v[2], nm, cs)
            return tuple(self.canon(x, d + 1) for x in v)
        if isinstance(v, Q):
            return str(v)
        return v

    # ---------------------------------------------------------- evaluation
    def ev(self, v, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('model too large')
        if isinstance(v, tuple):
            return tuple(self.ev(x, env) for x in v)
        if not isinstance(v, T):
            return v
        if env:
            at = v._atoms
            if at is None:
                at = atoms(v)
            while env and at.isdisjoint(env.own):
                env = env.up
        if not env:
            if v in self.cache:
                return self.cache[v]
            r = self.cache[v] = self.ev1(v, {})
            return r
        if v in env.own:
            return env.own[v]
        if v in env.memo:
            return env.memo[v]
        r = env.memo[v] = self.ev1(v, env)
        return r

    def num(self, x):
        if isinstance(x, bool):
            return Q(1 if x else 0)
        if isinstance(x, Q):
            return x
        if isinstance(x, int):
            return Q(x)
        return Q(self.hash('asnum', self.canon(x)) % 1000003, 7)

    def isnum(self, x):
        return isinstance(x, Q)

    def ev1(self, v, env):
        if isinstance(v, Poly):
            r = Q(0)
            if len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1:
                x = self.ev(v.a[0][0][0][0], env)
                return x if isinstance(x, Q) else self.num(x)
            for m, c in v.a:
                t = c
                for a, e in m:
                    x = self.num(self.ev(a, env))
                    if e < 0 and x == 0:
                        x = BIG ** -1
                    t = t * x ** e
                r += t
            return r
        if isinstance(v, MT):
            while isinstance(v, MT):
                v = v.a[1] if self.lit(v.a[0], env) else v.a[2]
            return self.ev(v, env)
        if isinstance(v, Agg):
            x0 = v.a[3][0] if v.a[3] else None
            if isinstance(x0, Sym) and x0.h == 'fld' and v.a[0] != 'closure':
                b = x0.a[1]
                if all(isinstance(x, Sym) and x.h == 'fld' and x.a[1] is b and x.a[2] == n for x, n in zip(v.a[3], v.a[2])):
                    if v.a[1] is None or v.a[1] not in ('Some', 'Ok', 'Err') or isinstance(b, Sym) and b.h == 'as' and b.a[2] == v.a[1]:
                        b = b.a[1] if isinstance(b, Sym) and b.h == 'as' else b
                        return self.ev(b, env)
            return ('agg', v.a[0], v.a[1], v.a[2], tuple(self.ev(x, env) for x in v.a[3]))
        if isinstance(v, Ref):
            return ('ref', self.ev(v.a[0], env) if v.a[0][0] == 'H' else rep(v.a[0]), self.proj(v.a[1], env))
        if isinstance(v, Overlay):
            base = self.ev(v.a[0], env)
            for k, x in v.a[1]:
                val = self.ev(x, env)
                if k[0] == 'f':
                    base = self.setfield(base, k[1], val)
                elif k[0] == 'i':
                    kk = k[1]
                    while kk.__class__ is Sym and kk.h == '&':
                        kk = kk.a[1]
                    if (kk is not k[1] or kk.__class__ is Sym and kk.h == 'streamitem') and not isinstance(base, (SetV, Seq)):
                        base = SetV(self.canon(base), {})
                    if isinstance(base, SetV):
                        base = SetV(base.base, {**base.over, self.canon(self.deref1(self.ev(k[1], env))): val})
                        continue
                    i = self.num(self.ev(k[1], env))
                    s = self.seq(base, v.a[0])
                    self.wcov[k[1]] = self.wcov.get(k[1], False) or 0 <= i < s.n
                    base = s.with_(i, val)
                elif k[0] == 'd':
                    if self.canon(val) == self.canon(base):
                        continue
                    if k[1] in ('Some', 'Ok', 'Err') and not (isinstance(val, tuple) and val and val[0] == 'agg'):
                        val = ('agg', 'core::option::Option' if k[1] == 'Some' else 'core::result::Result', k[1], ('0',), (self.field(val, '0'),))
                    base = val
                else:
                    raise Unsupported('overlay ' + str(k))
            return base
        h = v.h
        f = getattr(self, 'e_' + h.replace('.', '_').replace('&', 'amp'), None)
        if f is not None:
            return f(v, env)
        if h in ('true', 'false'):
            return h == 'true'
        if h in ('unit', 'null', 'undef', 'bottom'):
            return h
        if h == 'str':
            return ('str', v.a[1])
        if h in ('α', 'β', 'own'):
            raise Unsupported('free binder')
        return self.atom(v, env)

    def proj(self, p, env):
        return tuple((k[0],) + tuple(self.ev(x, env) if isinstance(x, T) else x for x in k[1:]) for k in p)

    def atom(self, v, env):
        if v in self.given:
            return self.given[v]
        key = (v.h,) + tuple(self.canon(self.ev(x, env)) if isinstance(x, (T, tuple)) else x for x in v.a[1:])
        return self.numval(self.hash(*key), shape(v), lastname(v))

    def provof(self, x, c):
        return provenance(x) or (self.provs.get(c) if isinstance(c, str) else None)

    def part(self, x, prov):
        x = known_part(x, prov)
        if isinstance(x, Q) and x.denominator != 1:
            self.provs[str(x)] = prov
        return x

    def field(self, b, name):
        if isinstance(b, tuple) and b and b[0] == 'agg':
            if name in b[3]:
                return b[4][b[3].index(name)]
        if isinstance(b, Obj):
            if name in b.over:
                return b.over[name]
            return self.field(b.base, name)
        c = self.canon(b)
        return self.part(self.numval(self.hash('fld', c, name), None, name), ('fld', c, name))

    def setfield(self, b, name, val):
        if isinstance(b, tuple) and b and b[0] == 'agg' and name in b[3]:
            i = b[3].index(name)
            return b[:4] + (b[4][:i] + (val,) + b[4][i + 1:],)
        if isinstance(b, Obj):
            o = dict(b.over)
            o[name] = val
            return Obj(b.base, o)
        return Obj(b, {name: val})

    def seq(self, b, term=None):
        if isinstance(b, Seq):
            return b
        if isinstance(b, tuple) and b and b[0] == 'agg' and b[1] == 'array':
            xs = b[4]
            return Seq(len(xs), lambda i: xs[int(i)] if 0 <= i < len(xs) else 'oob')
        if isinstance(b, tuple) and b and b[0] == 'str':
            xs = chars(b)
            return Seq(len(xs), lambda i: xs[int(i)] if 0 <= i < len(xs) else 'oob')
        c = self.canon(b)
        n = self.lenof(c)
        nm = self.hk.get(c) if isinstance(c, str) else None
        nm = nm + '[]' if nm else None
        sh = None

        def get(i):
            return self.elem(c, i, sh, nm)
        return Seq(n, get, None, (c, get))

    def elem(self, c, i, sh, nm):
        h = self.hash('elem', c, str(i))
        return self.part(self.numval(h, sh, nm), ('elem', c, Q(i)))

    def e_fld(self, v, env):
        b = self.ev(v.a[1], env)
        if isinstance(b, (Obj,)) or (isinstance(b, tuple) and b and b[0] == 'agg'):
            x = self.field(b, v.a[2])
            return x
        if len(v.a) > 3:
            key = ('fld', self.canon(b), v.a[2], self.canon(self.ev(v.a[3], env)))
        else:
            key = ('fld', self.canon(b), v.a[2])
        if v in self.given:
            return self.given[v]
        return self.part(self.numval(self.hash(*key), shape(v), v.a[2]), key if len(key) == 3 else None)

    def e_idx(self, v, env):
        b = self.ev(v.a[1], env)
        if isinstance(b, SetV):
            return self.lookup(b, self.canon(self.deref1(self.ev(v.a[2], env))))
        i = self.num(self.ev(v.a[2], env))
        if isinstance(b, Seq):
            return b.at(i)
        if isinstance(b, tuple) and b and b[0] == 'agg' and b[1] == 'array':
            return self.seq(b).at(i)
        c = self.canon(b)
        nm = lastname(v)
        if nm is None and isinstance(c, str) and c in self.hk:
            nm = self.hk[c] + '[]'
        return self.elem(c, i, shape(v), nm)

    def e_len(self, v, env):
        b = self.ev(v.a[1], env)
        if isinstance(b, SetV):
            if b.base is None:
                return Q(len(self.setkeys(b)))
            n = self.lenof(b.base)
            for k, x in b.over.items():
                n += (x is not ABSENT) - self.has(SetV(b.base, {}), k)
            return Q(max(0, n))
        return Q(self.seq(b).n)

    def e_streamlen(self, v, env):
        b = self.ev(v.a[1], env)
        if isinstance(b, SetV):
            return Q(len(self.setkeys(b)))
        return Q(self.lenof(self.canon(b)))

    def e_dist(self, v, env):
        a, b = self.canon(self.ev(v.a[1], env)), self.canon(self.ev(v.a[2], env))
        if a == b:
            return Q(0)
        a, b = sorted((a, b), key=repr)
        return Q(self.hash('dist', a, b) % 999983 + 1, 997) * self.scale / 10

    def bound(self, n):
        n = self.num(n)
        if n > 220:
            raise Unsupported('unbounded loop in model')
        return max(0, math.ceil(n))

    def e_sum(self, v, env):
        r = Q(0)
        for i in range(self.bound(self.ev(v.a[1], env))):
            r += self.num(self.ev(v.a[2], Env(env, {v.a[3]: Q(i)})))
        return r

    def e_all(self, v, env):
        for i in range(self.bound(self.ev(v.a[1], env))):
            if not self.boolv(self.ev(v.a[2], Env(env, {v.a[3]: Q(i)}))):
                return False
        return True

    def e_vecof(self, v, env):
        n = self.bound(self.ev(v.a[1], env))
        return Seq(n, lambda i: self.ev(v.a[2], Env(env, {v.a[3]: i})))

    def e_filtered(self, v, env):
        out = []
        for i in range(self.bound(self.ev(v.a[1], env))):
            e = Env(env, {v.a[4]: Q(i)})
            if self.boolv(self.ev(v.a[2], e)):
                out.append(self.ev(v.a[3], e))
        return self.listseq(out)

    def listseq(self, out):
        return Seq(len(out), lambda i: out[int(i)] if 0 <= i < len(out) else 'oob')

    def e_mapidx(self, v, env):
        ini = self.seq(self.ev(v.a[1], env), v.a[1])
        n = self.num(self.ev(v.a[2], env))
        return Seq(ini.n, lambda i: self.ev(v.a[3], Env(env, {v.a[4]: i})) if 0 <= i < n else ini.at(i))

    def e_fold(self, v, env):
        sel, n, cond, inits, nexts, al, b = v.a[1:]
        key = ('fold', n, cond, inits, nexts, al, b)     # shared by all results of the loop
        memo = env.memo if env else self.cache
        if key in memo:
            k, vals = memo[key]
            return Q(k) if sel == 'K' else vals[sel]
        vals = [self.ev(x, env) for x in inits]
        lim = self.bound(self.ev(n, env)) if n is not None else None
        k = 0
        while True:
            e = Env(env, {b: Q(k)})
            for a, x in zip(al, vals):
                e.own[a] = x
            if lim is not None and k >= lim:
                break
            if cond is not None and self.boolv(self.ev(cond, e)):
                break
            vals = [self.ev(x, e) for x in nexts]
            k += 1
            if k > 60:
                raise Unsupported('fold does not end in model')
        memo[key] = k, vals
        return Q(k) if sel == 'K' else vals[sel]

    def e_emptyvec(self, v, env):
        return self.listseq([])

    def e_emptyset(self, v, env):
        return SetV(None, {})

    # sets and maps: an unknown base with known membership changes
    def setv(self, x):
        if isinstance(x, SetV):
            return x
        return SetV(self.canon(x), {})

    def has(self, s, kc):
        if kc in s.over:
            return s.over[kc] is not ABSENT
        if s.base is not None and isinstance(kc, str) and any(kc == str(Q(self.hash('setkey', s.base, i) % 999983 + 1, 991)) for i in range(self.lenof(s.base))):
            return True
        return s.base is not None and self.hash('has', s.base, kc) % 2 == 0

    def lookup(self, s, kc):
        if kc in s.over:
            return s.over[kc]
        return Q(self.hash('val', s.base, kc) % 999983 + 1, 997)

    def e_contains(self, v, env):
        b = self.ev(v.a[1], env)
        k = self.deref1(self.ev(v.a[2], env))
        kc = self.canon(k)
        if isinstance(b, Seq) or isinstance(b, tuple) and b and b[0] == 'agg':
            return any(self.canon(x) == kc for x in self.items(self.seq(b)))
        return self.has(self.setv(b), kc)

    def deref1(self, x):
        while isinstance(x, tuple) and len(x) == 2 and x[0] == '&':
            x = x[1]
        return x

    def e_amp(self, v, env):
        x = self.ev(v.a[1], env)
        c = self.canon(x)
        return self.pointers[c] if isinstance(c, str) and c in self.pointers else ('&', x)

    def setop(self, v, env):
        s = self.setv(self.ev(v.a[1], env))
        k = self.canon(self.deref1(self.ev(v.a[2], env)))
        return s, k

    def e_HashSet_insert(self, v, env):
        s, k = self.setop(v, env)
        return SetV(s.base, {**s.over, k: True})

    def e_HashSet_remove(self, v, env):
        s, k = self.setop(v, env)
        return SetV(s.base, {**s.over, k: ABSENT})

    def e_HashMap_insert(self, v, env):
        s, k = self.setop(v, env)
        return SetV(s.base, {**s.over, k: self.ev(v.a[3], env)})

    e_HashMap_remove = e_HashSet_remove

    def e_ret_HashSet_insert(self, v, env):
        s, k = self.setop(v, env)
        return not self.has(s, k)

    def e_ret_HashSet_remove(self, v, env):
        s, k = self.setop(v, env)
        return self.has(s, k)

    def setkeys(self, s):
        """members in the (unknown, but fixed) iteration order"""
        ks = [k for k, x in s.over.items() if x is not ABSENT]
        if s.base is not None:
            raw = SetV(s.base, {})
            ks = [str(Q(self.hash('setkey', s.base, i) % 999983 + 1, 991)) for i in range(self.lenof(s.base))]
            ks = [k for k in ks if s.over.get(k) is not ABSENT] + [k for k, x in s.over.items() if x is not ABSENT and k not in ks and not self.has(raw, k)]
        return sorted(ks, key=lambda k: self.hash('order', k))

    def e_stream(self, v, env):
        return self.ev(v.a[1], env)

    def e_streamitem(self, v, env):
        b = self.ev(v.a[1], env)
        i = self.num(self.ev(v.a[2], env))
        if not isinstance(b, (SetV, Seq)) and not (isinstance(b, tuple) and b and b[0] == 'agg'):
            b = SetV(self.canon(b), {})
        if isinstance(b, SetV):
            ks = self.setkeys(b)
            k = ks[int(i)] if 0 <= i < len(ks) else 'oob'
            try:
                return Q(k)
            except Exception:
                return k
        c = self.canon(b)
        return self.numval(self.hash('streamitem', c, str(i)), shape(v), lastname(v))

    def e_push(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        x = self.ev(v.a[2], env)
        n = s.n
        return Seq(n + 1, lambda i: x if i == n else s.at(i))

    def e_repeat(self, v, env):
        x = self.ev(v.a[1], env)
        n = self.bound(self.ev(v.a[2], env))
        return Seq(n, lambda i: x)

    def e_resized(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        n = self.bound(self.ev(v.a[2], env))
        x = self.ev(v.a[3], env) if len(v.a) > 3 else 'undef'
        return Seq(n, lambda i: s.at(i) if i < s.n else x)

    def e_concat(self, v, env):
        s, t = self.seq(self.ev(v.a[1], env), v.a[1]), self.seq(self.ev(v.a[2], env))
        return Seq(s.n + t.n, lambda i: s.at(i) if i < s.n else t.at(i - s.n))

    def e_flat(self, v, env):
        """the texts of a sequence, one after the other"""
        s, sep = self.seq(self.ev(v.a[1], env), v.a[1]), self.ev(v.a[2], env)
        out = []
        for i in range(s.n):
            if i:
                out += chars(sep)
            out += chars(s.at(i))
        return Seq(len(out), lambda i: out[int(i)] if 0 <= i < len(out) else 'oob')

    def e_inserted(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        p = self.num(self.ev(v.a[2], env))
        x = self.ev(v.a[3], env)
        return Seq(s.n + 1, lambda i: s.at(i) if i < p else x if i == p else s.at(i - 1))

    def e_swap_removed(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        p = self.num(self.ev(v.a[2], env))
        return Seq(max(0, s.n - 1), lambda i: s.at(s.n - 1) if i == p else s.at(i))

    def e_poped(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        return Seq(max(0, s.n - 1), s.at)

    def e_truncateed(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        n = self.num(self.ev(v.a[2], env))
        return Seq(min(s.n, n), s.at)

    def e_removed(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        p = self.num(self.ev(v.a[2], env))
        return Seq(max(0, s.n - 1), lambda i: s.at(i) if i < p else s.at(i + 1))

    def items(self, s):
        if s.n > 12:
            raise Unsupported('long sequence')
        return [s.at(i) for i in range(int(s.n))]

    def e_sorted(self, v, env):
        import functools
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        xs = self.items(s)
        less, b1, b2 = v.a[2:]

        def cmp(x, y):
            if self.boolv(self.ev(less, Env(env, {b1: x, b2: y}))):
                return -1
            return 1 if self.boolv(self.ev(less, Env(env, {b1: y, b2: x}))) else 0
        return self.listseq(sorted(xs, key=functools.cmp_to_key(cmp)))

    def e_selidx(self, v, env):
        kind, n, cond, cb, better, b1, b2 = v.a[1:]
        best = None
        for i in range(self.bound(self.ev(n, env))):
            i = Q(i)
            if cond is not TRUE and not self.boolv(self.ev(cond, Env(env, {cb: i}))):
                continue
            if best is None or self.boolv(self.ev(better, Env(env, {b1: i, b2: best}))) or \
                    kind == 'max' and not self.boolv(self.ev(better, Env(env, {b1: best, b2: i}))):
                best = i
        return Q(0) if best is None else best

    def e_firstidx(self, v, env):
        n, cond, b = v.a[1:]
        for i in range(self.bound(self.ev(n, env))):
            if self.boolv(self.ev(cond, Env(env, {b: Q(i)}))):
                return Q(i)
        return Q(self.bound(self.ev(n, env)))

    def e_shuffled(self, v, env):
        s = self.seq(self.ev(v.a[2], env), v.a[2])
        xs = self.items(s)
        c = self.canon(self.ev(v.a[1], env))
        order = sorted(range(len(xs)), key=lambda i: self.hash('shuf', c, len(xs), i))
        return self.listseq([xs[i] for i in order])

    def e_rnd(self, v, env):
        nm = v.a[1]
        st = self.canon(self.ev(v.a[2], env))
        args = self.ev(v.a[3], env)
        h = self.hash('rnd', nm, st, self.canon(args))
        if nm == 'usize' and args and isinstance(args[0], tuple) and args[0][0] == 'agg' and len(args[0][4]) == 2:
            lo, hi = self.num(args[0][4][0]), self.num(args[0][4][1])
            return lo + Q(h % int(hi - lo)) if hi > lo else lo
        if nm in ('f64', 'f32'):
            return Q(h % 9973, 9973)
        if nm == 'bool':
            return h % 2 == 0
        return Q(h % 7)

    def e_secs(self, v, env):
        return Q(self.hash('secs', self.canon(self.ev(v.a[1], env))) % 1000, 100)

    def e_reversed(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        return Seq(s.n, lambda i: s.at(s.n - 1 - i))

    def e_sub(self, v, env):
        s = self.seq(self.ev(v.a[1], env), v.a[1])
        lo = self.num(self.ev(v.a[2], env))
        hi = self.num(self.ev(v.a[3], env)) if v.a[3] is not None else s.n
        return Seq(max(0, int(hi - lo)), lambda i: s.at(i + lo))

    def e_K(self, v, env):
        return Q(self.hash('K', v.a[1]) % 4)

    def e_f64(self, v, env):
        return {'inf': BIG, '-inf': -BIG}.get(v.a[1], Q(123456789))

    def e_max(self, v, env):
        return max(self.num(self.ev(v.a[1], env)), self.num(self.ev(v.a[2], env)))

    def e_idiv(self, v, env):
        a, b = self.num(self.ev(v.a[1], env)), self.num(self.ev(v.a[2], env))
        return Q(int(a / b)) if b else Q(0)

    def e_rem(self, v, env):
        a, b = self.num(self.ev(v.a[1], env)), self.num(self.ev(v.a[2], env))
        return a - b * int(a / b) if b else Q(0)

    def e_trunc(self, v, env):
        return Q(int(self.num(self.ev(v.a[1], env))))

    def e_round(self, v, env):
        x = self.num(self.ev(v.a[1], env))
        return Q(math.floor(abs(x) + Q(1, 2))) * (1 if x >= 0 else -1)

    def e_ceil(self, v, env):
        return Q(math.ceil(self.num(self.ev(v.a[1], env))))

    def e_floor(self, v, env):
        return Q(math.floor(self.num(self.ev(v.a[1], env))))

    def e_as(self, v, env):
        b = self.ev(v.a[1], env)
        if isinstance(b, tuple) and b and b[0] == 'agg':
            return b
        return b

    # ------------------------------------------------------------- literals
    def boolv(self, x):
        if isinstance(x, bool):
            return x
        return self.hash('b', self.canon(x)) % 2 == 0

    def lit(self, l, env):
        r = self.lit1(l, env)
        self.cov[l] = self.cov.get(l, 0) | (2 if r else 1)
        return r

    def lit1(self, l, env):
        h = l.h
        if h == 'gti':
            return self.num(self.ev(l.a[1], env)) > 0
        if h == 'gt' or h == 'agt':
            x = self.num(self.ev(l.a[1], env))
            if self.tie:
                self.tcov[l] = self.tcov.get(l, 0) + (x == 0)
            return x > (0 if h == 'gt' else Q(1, 2))
        if h == 'eq':
            sc = strconst(l.a[1])
            if sc:
                x = self.ev(sc[0], env)
                if isinstance(x, tuple) and x and x[0] == 'str':
                    return x[1] == sc[1]
                cs = sorted(self.kinds.strs)        # an unknown text is one of the texts of the program or none of them
                i = self.hash('text', self.canon(x)) % (len(cs) + 2)
                return i < len(cs) and cs[i] == sc[1]
            return self.num(self.ev(l.a[1], env)) == 0
        if h == 'isinf':
            return abs(self.num(self.ev(l.a[1], env))) >= BIG / 2
        if h == 'gtv':
            a, b = self.ev(l.a[1], env), self.ev(l.a[2], env)
            if self.isnum(a) and self.isnum(b):
                return a > b
            return self.hash('gtv', self.canon(a), self.canon(b)) % 2 == 0
        if h == 'eqv':
            return self.canon(self.ev(l.a[1], env)) == self.canon(self.ev(l.a[2], env))
        if h == 'null?':
            x = self.ev(l.a[1], env)
            if x == 'null':
                return True
            if isinstance(x, tuple):
                return False
            return self.hash('null', self.canon(x)) % 3 == 0
        if h == 'is':
            x = self.ev(l.a[1], env)
            if isinstance(x, tuple) and x and x[0] == 'agg':
                return x[2] == l.a[2]
            vs = self.kinds.variants_of(l.a[1], l.a[2])
            return vs[self.hash('is', self.canon(x)) % len(vs)] == l.a[2]
        if h == 'b':
            return self.boolv(self.ev(l.a[1], env))
        if h == 'all':
            return self.e_all(l, env)
        key = (h,) + tuple(self.canon(self.ev(x, env)) if isinstance(x, (T, tuple)) else x for x in l.a[1:])
        return self.hash(*key) % 2 == 0


def _e_star(self, v, env):
    x = self.ev(v.a[1], env)
    if isinstance(x, tuple) and x and x[0] == 'str':
        return x
    if isinstance(x, tuple) and len(x) == 2 and x[0] == '&':
        return x[1]
    if isinstance(x, (Seq, SetV)) or isinstance(x, tuple) and x and x[0] == 'agg':
        return x
    r = self.atom(v, env)
    c = self.canon(r)
    if isinstance(c, str):
        self.pointers[c] = x
    return r


setattr(Model, 'e_*', _e_star)

NMODELS = 60
BADH = ('ver', 'phi', 'phiseq', 'jver', 'subupd')


def unknown(*terms):
    out = []
    for t in terms:
        for x in atoms(t):
            if x.h in BADH:
                out.append(x)
    return out


OPAQUEH = ('call', 'imp', 'post', 'callv', 'rv', 'bin', 'un', 'stream', 'streamitem', 'streamlen', 'agg', 'const', 'constn')


def opaque_heads(t):
    """operations of a term the analysis has no meaning for"""
    out = set()
    for x in atoms(t):
        if x.h in ('call', 'post'):
            out.add('%s %s' % (x.h, x.a[1]))
        elif x.h == 'imp':
            out.add('imp %s' % x.a[2])
        elif x.h in OPAQUEH:
            out.add(x.h)
    return out


def shrink(*terms):
    """large limits replaced by small ones in all terms alike: the terms are compared as functions of their limits, and limits no
    model reaches would leave branches unexplored"""
    cs = sorted({abs(c) for c in constants(*terms) if c.denominator == 1 and 50 <= abs(c) <= 5000})
    if not cs:
        return None
    m, base, nxt = {}, None, 2
    for c in cs:
        if base is None or c - base > 5:
            base, off = c, nxt
            nxt += 6
        m[c] = off + c - base
    f = lambda c: (m[abs(c)] if c > 0 else -m[abs(c)]) if abs(c) in m else c
    memo = {}
    return [mapconst(t, f, memo) for t in terms]


def extremes(*terms):
    """very small and very large limits moved to where the values of the models lie, in all terms alike and in the same order"""
    cs = sorted({abs(c) for c in constants(*terms)})
    small = [c for c in cs if 0 < c <= Q(1, 100) and c > Q(1, 10 ** 6)]
    large = [c for c in cs if 5000 < c <= 10 ** 9]
    if not small and not large or len(small) > 6 or len(large) > 6:
        return None
    m, base, off = {}, None, 300
    for i, c in enumerate(small):
        m[c] = Q(30 + 40 * i)
    for c in large:
        if base is None or c - base > 5:
            base = c
            off += 80
        m[c] = off + c - base
    f = lambda c: (m[abs(c)] if c > 0 else -m[abs(c)]) if abs(c) in m else c
    memo = {}
    return [mapconst(t, f, memo) for t in terms]


def equal(a, b, n=NMODELS, given=None, assume_=None):
    """-> (True|False|None, detail).  None: not decided."""
    if a is b:
        return True, 'normal form'
    r = equal1(a, b, n, given, assume_)
    if r[0] is True:
        sm = shrink(a, b)
        if sm and sm[0] is not sm[1]:
            r2 = equal1(sm[0], sm[1], n, given, assume_, 9)
            if r2[0] is False:
                return False, 'with limits scaled down: ' + r2[1]
        sm = extremes(a, b)
        if sm and sm[0] is not sm[1]:
            r2 = equal1(sm[0], sm[1], n, given, assume_, 4)
            if r2[0] is False:
                return False, 'with extreme limits moved into the range of the models: ' + r2[1]
    return r


COVTIME = 6


WORKERS = 6


class Run:
    """evaluation of two terms in random models; the counts and the coverage of several runs add up"""

    def __init__(self, a, b, n, given, assume_, maxn, tie=False):
        self.tie = tie
        self.a, self.b, self.n, self.given, self.assume_, self.maxn = a, b, n, given, assume_, maxn
        self.kinds = Kinds([a, b] + ([assume_] if assume_ is not None else []))
        self.used = self.tried = 0
        self.cov, self.wcov, self.tcov = {}, {}, {}
        self.skipped = ''
        self.verdict = None
        self.t0 = time.time()

    def done(self, limit):
        t = time.time() - self.t0
        return self.used >= self.n and (t > COVTIME or (all(c > 3 for c in self.tcov.values()) if self.tie else all(c == 3 for c in self.cov.values()))) or t > limit

    def seeds(self, it, limit):
        """-> the first seed not tried, or None when finished"""
        for s in it:
            m = Model(s, self.kinds, self.maxn, self.tie)
            m.cov, m.wcov, m.tcov = self.cov, self.wcov, self.tcov
            if self.given:
                m.given = self.given
            try:
                if self.assume_ is not None and not m.boolv(m.ev(self.assume_, {})):
                    continue
                self.tried += 1
                x, y = m.canon(m.ev(self.a, {})), m.canon(m.ev(self.b, {}))
            except Unsupported as e:
                self.skipped = str(e)
                if self.tried > self.n and not self.used:
                    return None
                if time.time() - self.t0 > limit:
                    return s + 1
                continue
            except (ZeroDivisionError, OverflowError, RecursionError) as e:
                self.verdict = (None, repr(e))
                return None
            self.used += 1
            if x != y and not sameval(m, x, y):
                self.verdict = self.differ(s, x, y)
                return None
            if self.done(60):
                return None
            if time.time() - self.t0 > limit:
                return s + 1
        return None

    def differ(self, s, x, y):
        foreign = opaque_heads(self.a) - opaque_heads(self.b)
        if foreign:
            return None, 'not modelled: ' + ', '.join(sorted(foreign))[:160]
        bad = unknown(self.a)
        if bad and not unknown(self.b):
            return None, 'loop variable without closed form: ' + rep(bad[0])[:120]
        at, p, q = diverge(x, y)
        return False, 'witness %d%s: computed %s, required %s' % (s, ' at ' + at if at else '', short(p), short(q))

    def parallel(self, s0, last):
        """the remaining seeds, in several processes"""
        import pickle
        names = {}
        for t in subterms((self.a, self.b)):
            names[id(t)] = t
        n0, per = self.used, max(1, -(-(self.n - self.used) // WORKERS))
        kids = []
        for w in range(WORKERS):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    self.n = self.used + per
                    self.seeds(range(s0 + w, last, WORKERS), 1000)
                    out = pickle.dumps((self.used - n0, self.skipped, self.verdict, {id(k): c for k, c in self.cov.items()}, {id(k): c for k, c in self.wcov.items()}))
                    with os.fdopen(wr, 'wb') as f:
                        f.write(out)
                except BaseException:
                    os._exit(1)
                os._exit(0)
            os.close(wr)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                continue
            used, skipped, verdict, cov, wcov = pickle.loads(data)
            self.used += used
            self.skipped = self.skipped or skipped
            if verdict is not None and (self.verdict is None or verdict[0] is False):
                self.verdict = verdict
            for src, dst in ((cov, self.cov), (wcov, self.wcov)):
                for k, c in src.items():
                    t = names.get(k)
                    if t is not None:
                        dst[t] = dst.get(t, 0) | c


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            todo.extend(v.a)
    return seen


def equal1(a, b, n=NMODELS, given=None, assume_=None, maxn=3):
    run = Run(a, b, n, given, assume_, maxn)
    s = run.seeds(range(n * 40), 8)
    if s is not None:
        run.parallel(s, n * 40)
    if run.verdict is not None:
        return run.verdict
    if maxn == 3 and run.kinds.ties:
        r2 = Run(a, b, n, given, assume_, maxn, True)
        s = r2.seeds(range(n * 40), 2)
        if r2.verdict is not None and r2.verdict[0] is False:
            return False, 'with equal values: ' + r2.verdict[1]
        run.cov.update({l: run.cov.get(l, 0) | c for l, c in r2.cov.items()})
        run.wcov.update({l: run.wcov.get(l, 0) | c for l, c in r2.wcov.items()})
    used, cov, wcov = run.used, run.cov, run.wcov
    if used < 8:
        return None, run.skipped or 'no model satisfies the assumption'
    half = [l for l, c in cov.items() if c != 3]
    if half and os.environ.get('COV'):
        for l in half:
            print('   not covered:', 'true' if cov[l] == 1 else 'false', rep(l)[:300])
    odd = [l for l in literals(a) ^ literals(b) if cov.get(l) != 3] if maxn == 3 else []
    if odd:     # larger models for the conditions that small ones do not decide both ways
        r3 = Run(a, b, n, given, assume_, 7)
        r3.cov, r3.wcov = dict(cov), dict(wcov)
        r3.seeds(range(100000, 100000 + n * 40), 8)
        if r3.verdict is not None and r3.verdict[0] is False:
            return False, 'in larger models: ' + r3.verdict[1]
        cov, wcov = r3.cov, r3.wcov
        odd = [l for l in odd if cov.get(l) != 3]
    note = '; no model in which a condition that only one side tests is %s: %s' % ({0: 'reached', 2: 'false', 1: 'true'}[cov.get(odd[0], 0)], rep(odd[0])[:160]) if odd else ''
    lost = [i for i, c in wcov.items() if not c]
    if lost and maxn == 3:
        note += '; no model in which the write at this index lies inside the sequence: ' + rep(lost[0])[:160]
    if note and os.environ.get('NOTE'):
        print('NOTE', note[:700])
    return True, 'random interpretation (%d models, %d of %d branch outcomes)' % (used, 2 * len(cov) - len(half), 2 * len(cov)) + note


def literals(t):
    """conditions that occur anywhere in a term"""
    out, seen, todo = set(), set(), [t]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            todo.extend(v)
            continue
        if not isinstance(v, T) or v in seen:
            continue
        seen.add(v)
        if isinstance(v, MT):
            out.add(v.a[0])
        if isinstance(v, Overlay):
            todo.append(v.a[0])
            todo.extend(x for kv in v.a[1] for x in kv)
        else:
            todo.extend(v.a)
    return out


def sameval(m, x, y):
    """are two evaluated values the same, an unknown boolean being the truth value its use as a condition has?"""
    if isinstance(x, bool) != isinstance(y, bool):
        return m.boolv(x) == m.boolv(y)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, str) and isinstance(q, tuple) and q == ('seq', 0, ()):
            return m.lenof(p) == 0
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(sameval(m, p, q) for p, q in zip(x, y))
    return x == y


def diverge(x, y, path=''):
    """first position at which two evaluated values differ"""
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == 'agg' and x[1:4] == y[1:4]:
        for n, p, q in zip(x[3] or (), x[4], y[4]):
            if p != q:
                return diverge(p, q, path + '.' + str(n))
    elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == 'seq' and x[1] == y[1]:
        for i, (p, q) in enumerate(zip(x[2], y[2])):
            if p != q:
                return diverge(p, q, path + '[%d]' % i)
    elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] == 'obj' and x[1] == y[1]:
        dx, dy = dict(x[2]), dict(y[2])
        for n in sorted(set(dx) | set(dy)):
            if dx.get(n) != dy.get(n):
                return diverge(dx.get(n), dy.get(n), path + '.' + str(n))
    return path, x, y


def implies(p, c, n=NMODELS * 4):
    """does guard p imply c?"""
    p, c = as_bool(p), as_bool(c)
    r = band(p, bnot(c))
    if r is FALSE:
        return True, 'diagram'
    kinds = Kinds([p, c])
    hit = 0
    for s in range(n):
        m = Model(s, kinds)
        try:
            if m.boolv(m.ev(p, {})):
                hit += 1
                if not m.boolv(m.ev(c, {})):
                    return False, 'reached under %s without %s' % (rep(p)[:300], rep(c)[:300])
        except Unsupported as e:
            return None, str(e)
    return (True if hit else None), 'random interpretation (%d models)' % hit


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + '...'
