"""Obligations, verdicts and evidence shared by all checks."""
import json
import os
import re
import sys
import time
import traceback

import facts
import program
from program import Program, strip_generics
import interp as ip
from interp import Interp, State, Undecided, GHOST
import models
import iomodels
import terms as tm
from terms import *
import rint

ROOT = facts.ROOT
sys.setrecursionlimit(50000)


# ------------------------------------------------------------------ term DSL
class E:
    """terms with operators, for writing specifications"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t.t if isinstance(t, E) else t

    def __add__(self, o): return E(add(self.t, lift(o)))
    __radd__ = __add__
    def __sub__(self, o): return E(sub(self.t, lift(o)))
    def __rsub__(self, o): return E(sub(lift(o), self.t))
    def __mul__(self, o): return E(mul(self.t, lift(o)))
    __rmul__ = __mul__
    def __truediv__(self, o): return E(div(self.t, lift(o), False))
    def __rtruediv__(self, o): return E(div(lift(o), self.t, False))
    def __neg__(self): return E(neg(self.t))
    def __getitem__(self, i): return E(idx(self.t, lift(i)))
    def __gt__(self, o): return E(gt(self.t, lift(o)))
    def __lt__(self, o): return E(gt(lift(o), self.t))
    def __ge__(self, o): return E(bnot(gt(lift(o), self.t)))
    def __le__(self, o): return E(bnot(gt(self.t, lift(o))))
    def __and__(self, o): return E(band(self.t, lift(o)))
    def __or__(self, o): return E(bor(self.t, lift(o)))
    def __invert__(self): return E(bnot(self.t))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n.startswith('_') and n[1:].isdigit():
            n = n[1:]
        return E(read1(self.t, ('f', n)))

    @property
    def len(self):
        return E(length(self.t))

    @property
    def d(self):
        """dereference"""
        return E(deref(self.t))

    @property
    def b(self):
        return E(as_bool(self.t))

    def __repr__(self):
        return rep(self.t)


def deref(t):
    return mapleaf(lambda x: S('*', x), t)


def lift(o):
    if isinstance(o, E):
        return o.t
    if isinstance(o, bool):
        return TRUE if o else FALSE
    if isinstance(o, (int, float)):
        return const(repr(o)) if isinstance(o, float) else const(o)
    return o


def A(name):
    return E(S('arg', name))


def D(a, b):
    return E(dist(lift(a), lift(b)))


_lv = [100]


def _bind(f):
    _lv[0] += 1
    b = S('β', _lv[0])
    return b, lift(f(E(b)))


def Sum(n, f):
    b, v = _bind(f)
    return E(canon_binder('sum', lift(n), v, b))


def All(n, f):
    b, v = _bind(f)
    n = lift(n)
    bb = fresh(v, b)
    return E(mt(S('all', n, as_bool(subst(v, {b: bb})), bb), TRUE, FALSE))


def Any(n, f):
    return ~All(n, lambda i: ~E(as_bool(lift(f(i)))))


def Vec(n, f):
    b, v = _bind(f)
    return E(canon_binder('vecof', lift(n), v, b))


def MapIdx(ini, n, f):
    """ini with element i replaced by f(i) for i < n"""
    b, v = _bind(f)
    bb = fresh(v, b)
    return E(S('mapidx', lift(ini), lift(n), subst(v, {b: bb}), bb))


def Filt(n, cond, val):
    _lv[0] += 1
    b = S('β', _lv[0])
    c, v = as_bool(lift(cond(E(b)))), lift(val(E(b)))
    bb = fresh(tup(c, v), b)
    return E(S('filtered', lift(n), subst(c, {b: bb}), subst(v, {b: bb}), bb))


def Fold(n, inits, step, sel=0, until=None):
    """values of loop variables after n iterations (or until a condition holds)"""
    _lv[0] += 1
    l = _lv[0]
    b = S('β', l)
    al = [S('α', l, j) for j in range(len(inits))]
    es = [E(a) for a in al]
    nx = tuple(lift(x) for x in step(E(b), *es))
    cond = as_bool(lift(until(E(b), *es))) if until else None
    return E(S('fold', sel, lift(n) if n is not None else None, cond, tuple(lift(x) for x in inits), nx, tuple(al), b))


def fresh(v, b):
    lv = -1
    for x in atoms(v):
        if x.h == 'β' and x is not b:
            lv = max(lv, x.a[1])
    return S('β', lv + 1)


def canon_binder(h, n, v, b):
    bb = fresh(v, b)
    return S(h, n, subst(v, {b: bb}), bb)


def Ite(c, a, b):
    return E(ite(as_bool(lift(c)), lift(a), lift(b)))


def GtI(a, b):
    return E(gt(lift(a), lift(b), True))


def Agt(a, b):
    return E(gt(lift(a), lift(b), kind='agt'))


def Eq(a, b, ty=None):
    return E(eq(lift(a), lift(b), ty))


def Max(a, b):
    return E(fmax(lift(a), lift(b)))


def Min(a, b):
    return E(fmin(lift(a), lift(b)))


def Set(o, **kw):
    """object o with fields replaced"""
    t = lift(o)
    for k, v in kw.items():
        t = write1(t, ('f', k[1:] if k.startswith('_') else k), lift(v))
    return E(t)


def SetIdx(s, i, v):
    return E(write1(lift(s), ('i', lift(i)), lift(v)))


def Is(x, name):
    return E(isvar(lift(x), name))


def Call(name, *args):
    return E(S('call', name, tuple(lift(a) for a in args)))


# ------------------------------------------------------------------ summaries
class Summary:
    def __init__(self, I, fn, ret, st):
        self.I, self.fn, self.ret_, self.st = I, fn, ret, st
        self.events = I.events
        self.loops = I.loops

    @property
    def ret(self):
        return E(self.ret_)

    def mem(self, ptr):
        """contents of the object behind a pointer after the call"""
        p = lift(ptr)
        if self.st is None:
            return E(BOT)
        return E(self.I.loadp(self.st, p))

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.name.split('<')[0] in names or e.kind == 'call' and e.name.split('::')[-1] in names]


def dist_get(I, st, f, a):
    return [(dist(a[1], a[2]), st)]


def dist_row(I, st, f, a):
    """get_vec: entries to the right of (row, col); the function itself is checked by C18"""
    n = a[3]
    b = S('β', 1 + max([x.a[1] for t in (a[1], a[2], n) for x in atoms(t) if x.h == 'β'] or [-1]))
    return [(S('vecof', n, dist(a[1], add(a[2], b)), b), st)]


STDMODELS = dict(models.MATRIX)
STDMODELS['DistanceMatrix::get_vec'] = dist_row
STDMODELS['DistanceMatrix::get'] = dist_get
# log messages kept by the run history are no part of any property
STDMODELS['SearchHistory::add_message'] = lambda I, st, f, a: [(UNIT, st)]


class Check:
    def __init__(self, pid, tier='quick', feature=''):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []            # (label, where, verdict, detail)
        self.notes = []
        self.visited = set()
        self.anchors = []
        self.rules = []
        self.stats = {}
        self._prog = None
        self._bin = None
        self._spec = None
        self.build_error = None

    @property
    def prog(self):
        if self._prog is None:
            d = facts.facts()
            self._prog = Program([os.path.join(d, 'hybridcvrp-lib.json')])
        return self._prog

    @property
    def binprog(self):
        if self._bin is None:
            d = facts.facts()
            self._bin = Program([os.path.join(d, 'hybridcvrp-bin.json')])
        return self._bin

    @property
    def spec(self):
        if self._spec is None:
            self._spec = Program([os.path.join(facts.spec(), 'hspec-lib.json')])
        return self._spec

    def dimacs(self):
        d = facts.facts('dimacs')
        return Program([os.path.join(d, 'hybridcvrp-lib.json')])

    def rule(self, text):
        self.rules.append(text)

    # ---------------------------------------------------------- obligations
    def put(self, label, where, verdict, detail=''):
        self.obl.append((label, where, verdict, detail))
        return verdict

    def where(self, x):
        if x is None:
            return ''
        if isinstance(x, str):
            return x
        if isinstance(x, Summary):
            x = x.fn
        if hasattr(x, 'sp') and hasattr(x, 'kind'):
            return '%s in %s' % (x.sp or '', x.fn.label if x.fn else '')
        if hasattr(x, 'label'):
            return '%s:%s %s' % (x.file, x.line, x.label)
        return str(x)

    def eq(self, label, got, want, where=None, assume_=None, given=None, n=rint.NMODELS):
        got, want, assume_ = lift(got), lift(want), lift(assume_) if assume_ is not None else None
        r, how = rint.equal(got, want, n, assume_=assume_, given=given)
        if r is False and self._normal is not None:
            # the reference gives no result where it ends abnormally by an explicit check
            end = self._normal()
            if end is not None and end is not FALSE:
                r2, how2 = rint.equal(got, want, n, assume_=bnot(end) if assume_ is None else band(assume_, bnot(end)), given=given)
                if r2 is not None:
                    r, how = r2, how2
            if r is False:
                # nor where it reads beyond the end of a list
                end = self._bounds()
                if end is not None and end is not FALSE:
                    r2, how2 = rint.equal(got, want, n, assume_=bnot(end) if assume_ is None else band(assume_, bnot(end)), given=given)
                    if r2:
                        r, how = r2, 'within the bounds of every list; ' + how2
        d = how if r else '%s; computed %s ; required %s' % (how, show(got), show(want))
        return self.put(label, self.where(where), {True: 'ok', False: 'violated', None: 'undecided'}[r], d)

    def imp(self, label, pc, cond, where=None):
        r, how = rint.implies(lift(pc), lift(cond))
        return self.put(label, self.where(where), {True: 'ok', False: 'violated', None: 'undecided'}[r], how)

    def ok(self, label, cond, where=None, detail=''):
        return self.put(label, self.where(where), 'ok' if cond else 'violated', '' if cond else detail)

    def fail(self, label, where=None, detail=''):
        return self.put(label, self.where(where), 'violated', detail)

    def undecided(self, label, where=None, detail=''):
        return self.put(label, self.where(where), 'undecided', detail)

    # -------------------------------------------------------------- running
    def fn(self, ty, name, prog=None, trait=None):
        f = (prog or self.prog).find(ty, name, trait)
        lab = '%s::%s' % (ty, name) if ty else name
        if f is None:
            self.undecided('anchor %s' % lab, lab, 'the function %s this property is anchored to does not exist' % lab)
        else:
            self.anchors.append('%s (%s:%s)' % (f.label, f.file, f.line))
        return f

    def run(self, ty, name, opaque=(), models=None, args=None, mem=None, prog=None, trait=None, std=True, pure=(), pc=None, decide=None):
        f = self.fn(ty, name, prog, trait)
        if f is None:
            return None
        return self.runfn(f, opaque, models, args, mem, prog, std, pure)

    def runfn(self, f, opaque=(), models=None, args=None, mem=None, prog=None, std=True, pure=(), panics=False):
        ms = dict(STDMODELS) if std else {}
        if models:
            ms.update(models)
        off = [n for n, m in ms.items() if m is None]
        ms = {n: m for n, m in ms.items() if m is not None}
        for o in opaque:
            ms.pop(o, None)
        I = Interp(prog or self.prog, opaque=opaque, models=ms, pure=pure)
        I.panics = panics
        for n in off:
            for x in [x for x in I.models if x == n or x.split('::')[-1] == n]:
                del I.models[x]
        I.effects = self.prog.effects()
        I.touch = program.touches(self.prog)
        I.structs = self.prog.structs
        if args is None:
            args = default_args(f)
        args = [lift(a) for a in args]
        st = State()
        for k, v in (mem or {}).items():
            st.mem[('H', lift(k))] = lift(v)
        try:
            r = I.exec_fn(f, args, st, f.name or 'closure')
        except Undecided as e:
            self.undecided('summary of %s' % f.label, f, str(e))
            return None
        except (RecursionError, MemoryError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.undecided('summary of %s' % f.label, f, 'analysis error %r at %s' % (e, traceback.format_exc().splitlines()[-3:]))
            return None
        self.visited |= I.visited_fns
        for u in I.undecided:
            self.notes.append('%s: %s' % (f.label, u))
        if not r:
            s = Summary(I, f, BOT, None)
        else:
            s = Summary(I, f, r[0][0], r[0][1])
        return s

    # ------------------------------------------------- reference comparison
    def same(self, ty, name, opaque=(), models=None, std=True, pure=(), spec=None, sopaque=None, given=None, assume_=None, args=None,
             parts=None, ret=True, drop=(), label=None, trait=None, smodels=None, panics=False, tables=False):
        """the summary of a function equals the summary of its reference function.
        parts: function (summary) -> [(label, term)] selecting what is compared; default: result and every object reachable through the arguments"""
        f = self.fn(ty, name, trait=trait)
        sty, sname = spec or (ty, name)
        g = self.spec.find(sty, sname)
        if g is None:
            raise RuntimeError('no reference function %s::%s' % (sty, sname))
        if f is None:
            return None
        lab = label or f.label
        if args is None:
            args = default_args(f)
        a = self.runfn(f, opaque, models, args=args, std=std, pure=pure)
        n0 = len(self.visited)
        vis = set(self.visited)
        b = self.runfn(g, sopaque if sopaque is not None else opaque, smodels if smodels is not None else models, args=args, prog=self.spec, std=std, pure=pure)
        self.visited = vis
        if a is None or b is None:
            if b is None:
                self.undecided(lab, f, 'the reference function has no summary')
            return None
        memo = {}

        def normal(kind='explicit'):
            if kind not in memo:
                vis = set(self.visited)
                c = self.runfn(g, sopaque if sopaque is not None else opaque, smodels if smodels is not None else models, args=args, prog=self.spec, std=std, pure=pure, panics=kind)
                self.visited = vis
                memo[kind] = None if c is None or not c.st else c.st.get(GHOST)
            return memo[kind]
        if panics:
            self.same_end(lab, f, g, args, opaque, models, std, pure, sopaque, smodels, given, assume_)
        if tables:
            self._normal = normal
            self.same_end(lab, f, g, args, opaque, models, std, pure, sopaque, smodels, given, assume_, 'tables')
            self._normal = None
            if tables == 'only':
                return a
        self._normal, self._bounds = normal, lambda: normal(True)
        try:
            return self.same1(a, b, f, lab, given, assume_, parts, ret, drop)
        finally:
            self._normal, self._bounds = None, lambda: None

    _normal = None
    _bounds = staticmethod(lambda: None)

    def same1(self, a, b, f, lab, given, assume_, parts, ret, drop):
        if parts is not None:
            pa, pb = parts(a), parts(b)
            for (l, x), (_, y) in zip(pa, pb):
                self.eq('%s: %s' % (lab, l), x, y, f, given=given, assume_=assume_)
            return a
        if ret:
            self.eq('%s: result' % lab, observe(a, a.ret_), observe(b, b.ret_), f, given=given, assume_=assume_)
        objs = []
        for s in (a, b):
            for o in (s.st.mem if s.st else ()):
                if o[0] == 'H' and o not in objs and o[1] not in drop:
                    objs.append(o)
        for o in objs:
            x, y = (s.I.load(s.st, o, ()) if s.st else BOT for s in (a, b))
            self.cells('%s: %s' % (lab, 'contents of ' + cut(rep(o[1]), 90)), o, x, y, f, given, assume_)
        return a

    def same_end(self, lab, f, g, args, opaque, models, std, pure, sopaque, smodels, given, assume_, kind=True):
        """the function ends abnormally (a failed expectation, an index out of bounds, a panic) exactly when the reference does"""
        vis, ends = set(self.visited), []
        for h, o, m, p in ((f, opaque, models, None), (g, sopaque if sopaque is not None else opaque, smodels if smodels is not None else models, self.spec)):
            a = self.runfn(h, o, m, args=args, prog=p, std=std, pure=pure, panics=kind)
            if a is None:
                break
            ends.append(a.st.get(GHOST) if a.st else TRUE)
        else:
            if kind == 'tables':      # staying inside more often than the reference is no harm
                ends[0] = bor(*ends)
            self.eq('%s: %s' % (lab, 'ends abnormally' if kind is True else 'leaves a table'), ends[0], ends[1], f, given=given, assume_=assume_, n=5 * rint.NMODELS)
        self.visited = vis

    def cells(self, label, o, x, y, f, given, assume_):
        """compare two versions of an object field by field where both are field updates of the same object"""
        base = S('*', o[1])
        ks = []
        for v in (x, y):
            while isinstance(v, Overlay):
                ks += [k for k, _ in v.a[1] if k not in ks]
                v = v.a[0]
            if v is not base:
                ks = None
                break
        if ks and all(k[0] == 'f' for k in ks):
            for k in ks:
                self.eq('%s.%s' % (label, k[1]), read1(x, k), read1(y, k), f, given=given, assume_=assume_)
        else:
            self.eq(label, x, y, f, given=given, assume_=assume_)

    # ------------------------------------------------------- many references
    def opaque_ok(self, o):
        """an opaque function keeps its meaning only while repository and reference agree on its signature"""
        ty, n = o.split('::') if '::' in o else (None, o)

        def cand(p):
            return [f for f in p.fns.values() if f.name == n and (ty is None or ty == f.self_ty or ty == f.trait) and not f.closure_parent]
        a, b = cand(self.prog), cand(self.spec)
        if not b:
            return True
        return any(signature(f) == signature(g) for f in a for g in b)

    def same_robust(self, ty, name, opaque=(), **kw):
        """same(), and where it fails once more with the callees inlined on both sides"""
        f, g = self.prog.find(ty, name), self.spec.find(ty, name)
        lab = '%s::%s' % (ty, name) if ty else name
        if f is not None and g is not None and f.argc != g.argc:
            self.undecided('%s: signature' % lab, f, 'the function takes other arguments than its reference')
            return
        n0 = len(self.obl)
        self.same(ty, name, opaque=opaque, **kw)
        mine = self.obl[n0:]
        if all(o[2] == 'ok' for o in mine):
            return
        lost = [o for o in opaque if not self.opaque_ok(o)]
        if opaque:
            for op in ([o for o in opaque if o not in lost],) if lost else ((),):
                def again():
                    k2 = Check(self.pid, self.tier)
                    k2._prog, k2._spec = self.prog, self.spec
                    k2.same(ty, name, opaque=op, **kw)
                    return k2.obl
                ob = forked(again, FALLBACK)
                if ob and all(o[2] == 'ok' and 'only one side tests' not in o[3] for o in ob):
                    self.obl[n0:] = [(o[0], o[1], o[2], 'callees inlined; ' + o[3]) for o in ob]
                    return
        why = None
        if lost:
            why = 'functions the reference relies on no longer exist with that signature: %s' % ', '.join(lost)
        gone = self.gone_fields()
        for i in range(n0, len(self.obl)):
            o = self.obl[i]
            if o[2] == 'violated':
                hit = [x for x in gone if '.%s' % x in o[3] or x in o[0]]
                if why or hit:
                    self.obl[i] = (o[0], o[1], 'undecided', (why or 'fields of the reference that no longer exist: %s' % ', '.join(hit)) + '; ' + o[3])

    def gone_fields(self):
        """fields the reference crate uses that no structure of the repository has any more"""
        if not hasattr(self, '_gone'):
            have = {f['n'] for a in self.prog.adts.values() for v in a['variants'] for f in v['fields']}
            want = {f['n'] for p, a in self.spec.adts.items() if self.prog.adt(p.split('::')[-1]) for v in a['variants'] for f in v['fields']}
            self._gone = {x for x in want - have - {'data', 'x', 'penalty_multiplier'} if not x.isdigit()}
        return self._gone

    def refs(self, *specs, timeout=None, jobs=8):
        """same_robust() for many functions, in parallel processes. A spec is 'Type::fn@opaque,...' or (that, keyword arguments) or a callable of the check"""
        import pickle
        import signal
        if timeout is None:
            timeout = 500 if self.tier == 'quick' else 800
        self.prog.effects()
        self.spec.effects()
        self.gone_fields()
        todo = list(enumerate(specs))
        run, res = {}, {}
        while todo or run:
            while todo and len(run) < jobs:
                i, sp = todo.pop(0)
                fn = os.path.join(facts.CACHE, 'job-%d-%d' % (os.getpid(), i))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        k = Check(self.pid, self.tier)
                        k._prog, k._spec, k._gone = self.prog, self.spec, self._gone
                        k.one(sp)
                        with open(fn, 'wb') as f:
                            pickle.dump((k.obl, sorted(k.visited), k.anchors, k.notes), f)
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    sys.stdout.flush()
                    os._exit(rc)
                run[pid] = (i, sp, fn, time.time())
            time.sleep(0.05)
            for pid in list(run):
                i, sp, fn, t0 = run[pid]
                r, stt = os.waitpid(pid, os.WNOHANG)
                if r == 0 and time.time() - t0 > timeout:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    r, stt = pid, -1
                if r:
                    if os.environ.get('HSA_TIME'):
                        print('time %.1f %s' % (time.time() - t0, sp if isinstance(sp, str) else sp[0] if isinstance(sp, tuple) else getattr(sp, '__name__', sp)))
                    del run[pid]
                    if stt == 0 and os.path.exists(fn):
                        res[i] = pickle.load(open(fn, 'rb'))
                    else:
                        nm = sp if isinstance(sp, str) else sp[0] if isinstance(sp, tuple) else sp.__name__
                        res[i] = ([('reference comparison of %s' % nm.split('@')[0], nm, 'undecided', 'no answer within %d s' % timeout if stt == -1 else 'the analysis process failed')], [], [], [])
                    if os.path.exists(fn):
                        os.remove(fn)
        for i in sorted(res):
            o, v, a, n = res[i]
            self.obl += [tuple(x) for x in o]
            self.visited |= set(v)
            self.anchors += a
            self.notes += n

    def one(self, sp):
        if callable(sp):
            return sp(self)
        kw = {}
        if isinstance(sp, tuple):
            sp, kw = sp
        op = ()
        if '@' in sp:
            sp, o = sp.split('@')
            op = tuple(o.split(','))
        ty, n = sp.split('::') if '::' in sp else ('', sp)
        return self.same_robust(ty, n, opaque=op, **kw)

    # --------------------------------------------------------------- verdict
    def known(self):
        p = os.path.join(ROOT, 'known_findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get('property') == self.pid and k.get('status') == 'open']

    def level(self):
        p = os.path.join(ROOT, 'MANIFEST.json')
        if os.path.exists(p):
            for c in json.load(open(p))['checks']:
                if c['property'] == self.pid:
                    return c['level']
        return 'other'

    def finish(self, min_obl=1):
        viol = [o for o in self.obl if o[2] == 'violated']
        und = [o for o in self.obl if o[2] == 'undecided']
        good = [o for o in self.obl if o[2] == 'ok']
        if len(self.obl) < min_obl:
            und.append(('obligation count', '', 'undecided', '%d obligations generated, at least %d are known to exist' % (len(self.obl), min_obl)))
        kn = self.known()
        shown, new = [], []
        for o in viol:
            m = [k for k in kn if k['obligation'] == o[0] and (k.get('match', '') in o[3])]
            (shown if m else new).append((o, m))
        for k in kn:
            hits = [o for o, m in shown if k in m]
            if hits:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        vp = os.path.join(ev, '%s.violations.json' % self.pid)
        if os.path.exists(vp):
            os.remove(vp)
        fnames = sorted({(self.prog.fns[u].label if self._prog and u in self._prog.fns else u) for u in self.visited if 'closure' not in u})
        data = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level(),
            'coverage': {
                'explanation': 'static analysis of the type-checked MIR of /repo; each obligation is decided for every input by the rule named',
                'obligations': len(self.obl), 'discharged': len(good),
                'programs': len({o[0].split(':')[0] for o in self.obl if o[0]}),
                'disagreements_checked': sum(1 for o in self.obl if str(o[3]).startswith('random interpretation')),
                'samples': [{'obligation': o[0], 'where': o[1], 'verdict': o[2]} for o in self.obl[:5]],
                'checker_cmd': 'python3 /verif/check.py %s' % self.pid,
                'trusted_base': ['rustc nightly MIR construction', 'models of std and crate functions in sa/models.py', 'abstract interpreter sa/interp.py',
                                 'random-interpretation equality of summary terms (sa/rint.py) where normal forms differ'],
                'rules': self.rules, 'anchors': sorted(set(self.anchors)), 'functions_analysed': fnames[:200],
                'undecided': [{'obligation': o[0], 'where': o[1], 'why': cut(o[3], 300)} for o in und][:40],
                'obligation_list': [{'obligation': o[0], 'where': o[1], 'verdict': o[2], 'how': cut(o[3], int(os.environ.get('HOW', 80)))} for o in self.obl][:250],
            },
            'assumptions': self.notes[:20],
            'violations': len(shown) + len(new),
            'wall_s': round(time.time() - self.t0, 2),
        }
        data['coverage']['violations_list'] = [{'obligation': o[0], 'where': o[1], 'detail': cut(o[3], 600), 'known': bool(m)} for o, m in shown + new][:40]
        data['coverage'].update(self.stats)
        if len(json.dumps(data)) > 60000:
            data['coverage']['obligation_list'] = data['coverage']['obligation_list'][:80]
            data['coverage']['functions_analysed'] = fnames[:60]
        with open(os.path.join(ev, '%s.json' % self.pid), 'w') as f:
            json.dump(data, f, indent=1)
        for o in und:
            print('UNDECIDED %s [%s] %s' % (o[0], o[1], cut(o[3], 300)))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known); %d functions analysed; %.1f s' % (
            self.pid, len(self.obl), len(good), len(und), len(shown) + len(new), len(shown), len(self.visited), time.time() - self.t0))
        if new:
            with open(vp, 'w') as f:
                json.dump([{'obligation': o[0], 'where': o[1], 'detail': o[3]} for o, _ in new], f, indent=1)
            for o, _ in new:
                print('  violated: %s\n    at %s\n    %s' % (o[0], o[1], cut(o[3], 900)))
            print('VIOLATION property=%s replay=%s %s at %s' % (self.pid, vp, new[0][0][0], new[0][0][1]))
            return 1
        return 0


FALLBACK = 150


def signature(f):
    """argument types without module paths"""
    return [re.sub(r"(\w+::)+", '', l['ty']) for l in f.d['locals'][1:f.argc + 1]]


def forked(f, timeout):
    """f() computed in a child process; None if it fails or takes too long"""
    import pickle
    import signal
    fn = os.path.join(facts.CACHE, 'fork-%d' % os.getpid())
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            r = f()
            with open(fn, 'wb') as h:
                pickle.dump(r, h)
            rc = 0
        except BaseException:
            pass
        os._exit(rc)
    t0 = time.time()
    while True:
        r, stt = os.waitpid(pid, os.WNOHANG)
        if r:
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            stt = -1
            break
        time.sleep(0.05)
    out = None
    if stt == 0 and os.path.exists(fn):
        out = pickle.load(open(fn, 'rb'))
    if os.path.exists(fn):
        os.remove(fn)
    return out


def observe(s, v):
    """a value with references into fresh or local objects replaced by their contents"""
    return boxes(s, s.I.deep(s.st, v)) if s.st is not None else v


def boxes(s, v, d=0, memo=None):
    """pointers to memory allocated by the function, replaced by what they point to"""
    if d > 24:
        return v
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    r = v
    if isinstance(v, MT):
        r = ite(relit(v.a[0]), boxes(s, v.a[1], d, memo), boxes(s, v.a[2], d, memo))
    elif isinstance(v, Ref) and v.a[0][0] == 'A' and not v.a[1]:
        r = S('box', boxes(s, s.I.load(s.st, v.a[0], ()), d + 1, memo))
    elif isinstance(v, Agg) and any(isinstance(x, (Ref, Agg, MT, Sym)) for x in v.a[3]):
        r = agg(v.a[0], v.a[1], v.a[2], tuple(boxes(s, x, d + 1, memo) for x in v.a[3]))
    elif isinstance(v, Sym) and v.h in ('push', 'concat', 'append'):
        r = S(v.h, *[boxes(s, x, d + 1, memo) if isinstance(x, T) else x for x in v.a[1:]])
    memo[v] = r
    return r


def default_args(f):
    out = []
    for i in range(f.argc):
        n = f.locals[i + 1]['n']
        out.append(S('arg', 'self' if n == 'self' else 'a%d' % i))
    return out


def cut(s, n=700):
    return s if len(s) <= n else s[:n] + '...'


def show(t):
    try:
        return cut(rep(lift(t)))
    except RecursionError:
        return '(a term too deep to print)'
