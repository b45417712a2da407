"""Abstract interpreter over MIR (see terms.py for the value domain).

merge mode   one abstract state per program point; joins build guarded values,
             loops are solved by widening changed cells to loop variables and
             reading their recurrences back (with closed forms where exact).
fork mode    disjunctive states (used by the shape analysis of linked routes).
"""
import heapq
import sys
import time
import terms as tm
from terms import *
from program import strip_generics, short_ty, peel

sys.setrecursionlimit(20000)
SCALARS = ('f64', 'usize', 'i32', 'i64', 'u64', 'bool', 'u32')
INTS = {'usize', 'u64', 'u32', 'u16', 'u8', 'u128', 'isize', 'i64', 'i32', 'i16', 'i8', 'i128'}


class Undecided(Exception):
    pass


class State:
    __slots__ = ('mem', 'pc', 'fver', 'facts')

    def __init__(self):
        self.mem = {}
        self.pc = TRUE
        self.fver = {}
        self.facts = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.fver = dict(self.fver)
        s.facts = dict(self.facts) if self.facts is not None else None
        return s

    def get(self, obj):
        v = self.mem.get(obj)
        if v is None:
            v = default(obj)
        return v


GHOST = ('G', 'abnormal end')


def default(obj):
    if obj is GHOST or obj == GHOST:
        return FALSE
    if obj[0] == 'H':
        return S('*', obj[1])
    return UNDEF


class Event:
    __slots__ = ('kind', 'name', 'args', 'snap', 'pc', 'loops', 'fn', 'sp', 'ctx', 'ret', 'seq', 'call', 'post')

    def __repr__(self):
        return '<%s %s(%s) if %s in %s @%s>' % (self.kind, self.name, ', '.join(rep(x) for x in self.args), rep(self.pc), [l.id for l in self.loops], self.sp)


UNROLL = 4


class LoopInfo:
    def __init__(self, lid, fn):
        self.id = lid
        self.fn = fn
        self.K = S('K', lid)
        self.nexts = {}
        self.inits = {}
        self.n = None
        self.exits = []
        self.backpc = None
        self.extra_backs = []
        self.fields = {}
        self.closed = {}
        self.depth = 0


class Interp:
    def __init__(self, prog, opaque=(), mode='merge', pure=(), models=None, decide=None, inline=None, maxdepth=40):
        self.prog = prog
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.mode = mode
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.decide = decide
        self.events = []
        self.loops = {}
        self.stack = []
        self.loopstack = []
        self.allocs = 0
        self.undecided = []
        self.fnstack = []
        self.selfstack = []
        self.effects = {}
        self.touch = {}              # fields each opaque function reads or writes
        self.structs = {}
        self.maxdepth = maxdepth
        self.steps = 0
        self.visited_fns = set()
        self.max_steps = 400000
        self.deadline = time.time() + 150
        self.it = ''       # passes through unrolled loops
        self.caps = None             # initial capacities of local lists (object -> term), if followed
        self.panics = False          # follow abnormal ends in the ghost variable GHOST

    # -------------------------------------------------------------- utilities
    def note(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    def emit(self, st, kind, name, args, snap=None, sp=None, ret=None, call=None):
        e = Event()
        e.kind, e.name, e.args, e.snap = kind, name, list(args), snap
        e.pc = st.pc
        e.loops = list(self.loopstack)
        e.fn = self.fnstack[-1] if self.fnstack else None
        e.ctx = [f.uid for f in self.fnstack]
        e.sp = sp
        e.ret = ret
        e.call = call
        e.post = None
        e.seq = len(self.events)
        self.events.append(e)
        return e

    # ----------------------------------------------------------------- memory
    def targets(self, v):
        """pointer value -> [(guard, obj, proj)]"""
        out = []
        for g, x in leaves(v):
            if isinstance(x, Ref):
                out.append((g, x.a[0], x.a[1]))
            elif x is NULL or x is BOT:
                continue
            elif isinstance(x, Agg) and x.a[0] == 'boxed':
                out.append((g, x.a[3][0].a[0], x.a[3][0].a[1]))
            else:
                out.append((g, ('H', x), ()))
        return out

    def load(self, st, obj, proj):
        v = st.get(obj)
        for i, k in enumerate(proj):
            if k[0] == 'sub':
                v = S('sub', v, k[1], k[2])
            else:
                v = read1(v, k)
        return v

    def store(self, st, obj, proj, val, cond=TRUE):
        old = st.get(obj)
        if any(k[0] == 'sub' for k in proj):
            proj2 = []
            for k in proj:
                if k[0] == 'sub':
                    break
                proj2.append(k)
            inner = self.load(st, obj, tuple(proj2))
            val = S('subupd', inner, tuple(rep(k) for k in proj[len(proj2):]), val)
            proj = tuple(proj2)
        new = write(old, proj, val)
        if cond is not TRUE:
            new = ite(cond, new, old)
        st.mem[obj] = new
        if obj[0] != 'L':
            self.emit(st, 'write', 'write', [val], snap=(obj, proj, cond), sp=getattr(self, 'cursp', None))

    def loadp(self, st, v):
        r = None
        for g, obj, proj in self.targets(v):
            x = self.load(st, obj, proj)
            r = x if r is None else ite(g, x, r)
        return r if r is not None else BOT

    def storep(self, st, p, val):
        ts = self.targets(p)
        for g, obj, proj in ts:
            self.store(st, obj, proj, val, TRUE if len(ts) == 1 else g)

    def refto(self, p, *proj):
        """reference to a projection of what p points to"""
        r = None
        for g, obj, pr in self.targets(p):
            x = mkref(obj, extend(pr, proj))
            r = x if r is None else ite(g, x, r)
        return r if r is not None else BOT

    def alloc(self, st, val, tag):
        obj = ('A', tag)
        st.mem[obj] = val
        return mkref(obj)

    # ----------------------------------------------------------------- places
    def lval(self, fr, st, pl):
        cur = [(TRUE, ('L', fr, pl['l']), ())]
        for el in pl['p']:
            k = el[0]
            if k == 'deref':
                nxt = []
                for c, obj, proj in cur:
                    v = self.load(st, obj, proj)
                    for g, o2, p2 in self.targets(v):
                        g2 = band(c, g)
                        if g2 is not FALSE:
                            nxt.append((g2, o2, p2))
                cur = nxt
            elif k == 'field':
                owner = el[3].split('<')[0]
                if owner in ('alloc::boxed::Box', 'std::boxed::Box', 'core::ptr::Unique', 'std::ptr::Unique', 'core::ptr::NonNull',
                             'std::ptr::NonNull', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    continue
                cur = [(c, o, extend(p, (('f', el[2]),))) for c, o, p in cur]
            elif k == 'index':
                i = self.load(st, ('L', fr, el[1]), ())
                cur = [(c, o, extend(p, (('i', i),))) for c, o, p in cur]
            elif k == 'cindex':
                if el[3]:
                    cur = [(c, o, extend(p, (('i', sub(self.lenof(st, o, p), const(el[1]))),))) for c, o, p in cur]
                else:
                    cur = [(c, o, extend(p, (('i', const(el[1])),))) for c, o, p in cur]
            elif k == 'downcast':
                cur = [(c, o, extend(p, (('d', el[2]),))) for c, o, p in cur]
            elif k == 'subslice':
                cur = [(c, o, extend(p, (('sub', const(el[1]), None if el[3] else const(el[2])),))) for c, o, p in cur]
            else:
                cur = [(c, o, p + (('?',),)) for c, o, p in cur]
        return cur

    def lenof(self, st, obj, proj):
        return length(self.load(st, obj, proj))

    def rplace(self, fr, st, pl):
        r = None
        for c, obj, proj in self.lval(fr, st, pl):
            v = self.load(st, obj, proj)
            r = v if r is None else ite(c, v, r)
        return r if r is not None else BOT

    def wplace(self, fr, st, pl, val):
        ts = self.lval(fr, st, pl)
        for c, obj, proj in ts:
            self.store(st, obj, proj, val, TRUE if len(ts) == 1 else c)

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.rplace(fr, st, o['pl'])
        if k == 'fn':
            if o['path'].endswith(('From::from', 'Into::into')) and o.get('args'):
                return S('fn', o['path'], o['uid'] or '', tuple(o['args']))
            return S('fn', o['path'], o['uid'] or '')
        return self.konst(fr, st, o)

    def konst(self, fr, st, o):
        ck, v = o['ck'], o['v']
        if ck == 'bool':
            return TRUE if v else FALSE
        if ck == 'int':
            return const(int(v))
        if ck == 'float':
            return const(v)
        if ck == 'str':
            return S('str', v)
        if ck == 'unit':
            return UNIT
        if ck == 'char':
            return const(int(v))
        if 'promoted' in o and self.fnstack:
            fn = self.fnstack[-1]
            pr = fn.d['promoted']
            if o['promoted'] < len(pr):
                return self.promoted(fn, o['promoted'], st)
        return S('const', o.get('def', ''), v)

    def promoted(self, fn, i, st):
        from program import Fn
        key = ('A', 'promoted:%s:%d' % (fn.uid, i))
        if key in st.mem:
            return mkref(key) if not isinstance(st.mem[key], tuple) else BOT
        d = dict(fn.d['promoted'][i])
        d.update({'uid': fn.uid + '#p%d' % i, 'name': 'promoted', 'self_ty': '', 'trait': '', 'closure_parent': '', 'sp': fn.d['sp'], 'promoted': fn.d['promoted']})
        f = Fn(d)
        ev = len(self.events)
        res = self.exec_fn(f, [], st, 'promoted%d' % i, keep=True)
        del self.events[ev:]
        if not res:
            return BOT
        v, s2 = res[0]
        if isinstance(v, Ref) and v.a[0][0] == 'L':
            # the constant gets a home of its own
            st.mem[key] = self.load(s2, v.a[0], v.a[1])
            v = mkref(key)
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv):
        k = rv['k']
        if k == 'use':
            return self.operand(fr, st, rv['o'])
        if k == 'ref':
            r = None
            for c, obj, proj in self.lval(fr, st, rv['pl']):
                x = mkref(obj, proj)
                r = x if r is None else ite(c, x, r)
            return r if r is not None else BOT
        if k == 'repeat':
            n = rv['n']
            try:
                nn = const(int(str(n).split('_')[0]))
            except Exception:
                nn = S('constn', n)
            if is_const(nn) and cval(nn) <= 8:
                v = self.operand(fr, st, rv['o'])
                return agg('array', None, [str(i) for i in range(int(cval(nn)))], [v] * int(cval(nn)))
            return S('repeat', self.operand(fr, st, rv['o']), nn)
        if k == 'cast':
            v = self.operand(fr, st, rv['o'])
            if rv['ck'] == 'FloatToInt':
                return mapleaf(lambda x: x if (is_const(x) and cval(x).denominator == 1) or isinstance(x, Sym) and x.h in ('round', 'ceil', 'floor', 'trunc', 'len') else S('trunc', x), v)
            if rv['ck'] in ('IntToInt', 'IntToFloat') and rv['from'] == 'bool':
                return ite(as_bool(v), ONE, ZERO)
            return v
        if k == 'bin':
            return self.binop(rv['op'], self.operand(fr, st, rv['a']), self.operand(fr, st, rv['b']), rv['ty'])
        if k == 'un':
            v = self.operand(fr, st, rv['a'])
            if rv['op'] == 'Not':
                return bnot(v)
            if rv['op'] == 'Neg':
                return neg(v)
            if rv['op'] == 'PtrMetadata':
                r = None
                for g, o, p in self.targets(v):
                    x = self.lenof(st, o, p)
                    r = x if r is None else ite(g, x, r)
                return r
            return S('un', rv['op'], v)
        if k == 'discr':
            v = self.rplace(fr, st, rv['pl'])
            vs = tuple((a, b) for a, b in rv.get('vars', []))
            known_variants(v, tuple(n for _, n in vs))
            return S('discr', v, vs)
        if k == 'agg':
            a = rv['a']
            ops = [self.operand(fr, st, o) for o in rv['ops']]
            t = a['t']
            if t == 'tuple':
                return tup(*ops)
            if t == 'adt':
                name = a['path'].replace('std::', 'core::')
                if name.endswith('option::Option') or name.endswith('result::Result'):
                    return agg('core::option::Option' if name.endswith('Option') else 'core::result::Result', a['vname'], a['fields'], ops)
                if name.split('::')[-1] in ('Unique', 'NonNull') and ops:
                    return ops[0]
                return agg(adtname(name), a['vname'] if a['enum'] else None, a['fields'], ops)
            if t == 'closure':
                return agg('closure', a['uid'], [str(i) for i in range(len(ops))], ops)
            if t == 'array':
                return agg('array', None, [str(i) for i in range(len(ops))], ops)
            if t == 'rawptr':
                return ops[0]
            return S('agg', *ops)
        return S('rv', rv.get('dbg', k))

    def binop(self, op, a, b, ty):
        isint = ty in INTS
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            return tup(r, FALSE) if op.endswith('WithOverflow') else r
        if base == 'Div':
            return div(a, b, isint)
        if base == 'Rem':
            return mapleaf(lambda x, y: S('rem', x, y), a, b)
        if base == 'Lt':
            return gt(b, a, isint)
        if base == 'Gt':
            return gt(a, b, isint)
        if base == 'Le':
            return bnot(gt(a, b, isint))
        if base == 'Ge':
            return bnot(gt(b, a, isint))
        if base == 'Eq':
            return eq(a, b, ty)
        if base == 'Ne':
            return bnot(eq(a, b, ty))
        if ty == 'bool' or is_bool_leaf(a) or is_bool_leaf(b):
            if base == 'BitAnd':
                return band(a, b)
            if base == 'BitOr':
                return bor(a, b)
            if base == 'BitXor':
                return ite(as_bool(a), bnot(b), as_bool(b))
        return mapleaf(lambda x, y: S('bin', base, x, y), a, b)

    # --------------------------------------------------------------- blocks
    def exec_block(self, fr, fn, b, st):
        """-> list of (target or 'ret', state)"""
        tm.FVER = st.fver
        self.steps += 1
        if self.steps > self.max_steps or time.time() > self.deadline:
            raise Undecided('analysis budget exceeded in %s' % fn.uid)
        blk = fn.blocks[b]
        for s in blk['s']:
            if s['k'] == '=':
                self.cursp = s['sp']
                v = self.rvalue(fr, st, s['rv'])
                self.wplace(fr, st, s['pl'], v)
            elif s['k'] == 'setdiscr':
                self.note('setdiscr')
        t = blk['t']
        k = t['k']
        if k == 'assert' and self.panics is True and t.get('m', '').startswith('BoundsCheck'):
            c = as_bool(self.operand(fr, st, t['c']))
            self.abnormal(st, bnot(c) if t['e'] else c)
        if k in ('goto', 'drop', 'assert'):
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(fr, fn, st, t)
        if k == 'call':
            self.cursp = t['sp']
            args = [self.operand(fr, st, a) for a in t['args']]
            out = []
            if self.panics and t['t'] is None:
                if self.panics != 'tables':
                    st.mem[GHOST] = TRUE
                st.mem[('L', fr, 0)] = BOT
                return [('ret', st)]
            for ret, s2 in self.call(fr, fn, b, st, t['f'], args, t):
                if t['t'] is None or s2 is None:
                    continue
                tm.FVER = s2.fver
                self.wplace(fr, s2, t['dst'], ret)
                if self.caps is not None and not t['dst']['p']:
                    nm = strip_generics(t['f'].get('path') or '').split('::')[-2:]
                    if nm in (['Vec', 'with_capacity'], ['Vec', 'new']):
                        self.caps[('L', fr, t['dst']['l'])] = args[0] if args else ZERO
                out.append((t['t'], s2))
            return out
        if k in ('unreachable', 'resume'):
            return []
        self.note('terminator ' + str(t.get('dbg', k))[:60])
        return []

    def switch(self, fr, fn, st, t):
        d = self.operand(fr, st, t['d'])
        conds = []
        rest = TRUE
        if isinstance(d, Sym) and d.h == 'discr':
            v, vs = d.a[1], dict(d.a[2])
            names = [n for _, n in d.a[2]]
            listed = [vs.get(x, x) for x, _ in t['ts']]
            for (val, bb), nm in zip(t['ts'], listed):
                c = band(rest, isvar(v, nm))
                others = [n for n in names if n not in listed]
                if not others and nm is listed[-1]:
                    c = rest
                conds.append((c, bb))
                rest = band(rest, bnot(isvar(v, nm)))
            if not [n for n in names if n not in listed] and names:
                rest = FALSE
        else:
            for val, bb in t['ts']:
                c = bnot(d) if t['ty'] == 'bool' and val == '0' else (as_bool(d) if t['ty'] == 'bool' else eq(d, const(int(val)), t['ty']))
                c = band(rest, c)
                conds.append((c, bb))
                rest = band(rest, bnot(c))
        conds.append((rest, t['other']))
        # merge equal targets
        out = []
        for c, bb in conds:
            c = band(st.pc, c) if self.mode == 'merge' else c
            if c is FALSE:
                continue
            out.append((c, bb))
        if self.mode == 'fork':
            res = self.fork(st, out)
            if len(out) == 2 and len(res) > 1:
                m = self.diamond(fr, fn, st, out)
                if m is not None:
                    return m
            return res
        res = []
        for i, (c, bb) in enumerate(out):
            s2 = st if i == len(out) - 1 else st.copy()
            s2.pc = c
            res.append((bb, s2))
        return res

    def diamond(self, fr, fn, st, out):
        """two branches that only compute numbers and meet again: one state with guarded values instead of two states"""
        (c, b0), (_, b1) = out

        def arm(b):
            blk = fn.blocks[b]
            if blk['t']['k'] != 'goto' or b in fn.cfg.loops:
                return None
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                if s['pl']['p'] or fn.locals[s['pl']['l']]['ty'] not in SCALARS or fn.locals[s['pl']['l']]['ty'] == 'bool' or s['rv']['k'] not in ('use', 'bin', 'un', 'cast'):
                    return None
            return blk['t']['t']
        t0, t1 = arm(b0), arm(b1)
        if t0 is not None and t0 == t1:
            t = t0
        elif t0 == b1 and t0 is not None:
            t = b1
        elif t1 == b0 and t1 is not None:
            t = b0
        else:
            return None
        if t in fn.cfg.loops:
            return None
        ss = []
        for b in (b0, b1):
            s = st.copy()
            if b != t:
                ((_, s),) = self.exec_block(fr, fn, b, s)
            ss.append(s)
        r = ss[0]
        for o in set(r.mem) | set(ss[1].mem):
            x, y = r.mem.get(o), ss[1].mem.get(o)
            if x is not y:
                if o[:2] != ('L', fr):
                    return None
                r.mem[o] = y if x is None else x if y is None else ite(c, x, y)
        return [(t, r)]

    def abnormal(self, st, c, kind='explicit'):
        """the program ends abnormally (or leaves a table) here under c"""
        if self.panics and (kind == 'tables') == (self.panics == 'tables') and c is not FALSE:
            st.mem[GHOST] = bor(st.get(GHOST), c)

    def fork(self, st, conds):
        res = []
        for c, bb in conds:
            for s2 in self.assume_fork(st, c):
                res.append((bb, s2))
        return res

    def assume_fork(self, st, c):
        """states in which bool diagram c is true, by deciding literals"""
        if c is FALSE:
            return []
        if c is TRUE:
            return [st.copy()]
        var = c.a[0]
        f = st.facts.get(var)
        if f is None and self.decide is not None:
            f = self.decide(st, var)
        if f is not None:
            return self.assume_fork(st, c.a[1] if f else c.a[2])
        out = []
        for b in (True, False):
            s2 = st.copy()
            s2.facts[var] = b
            out += self.assume_fork(s2, c.a[1] if b else c.a[2])
        return out

    def join(self, states):
        if len(states) == 1:
            return states[0]
        r = states[0].copy()
        for s in states[1:]:
            union = bor(r.pc, s.pc)
            c = restrict(r.pc, union)
            if c is TRUE and s.pc is not FALSE:
                # overlapping conditions (imprecise): keep the later state's writes guarded by itself
                c = bnot(restrict(s.pc, union))
            for obj in set(r.mem) | set(s.mem):
                if obj[0] == 'L' and (obj not in r.mem or obj not in s.mem):
                    if obj not in r.mem:
                        r.mem[obj] = s.mem[obj]
                    continue
                a, b2 = r.get(obj), s.get(obj)
                if a is not b2:
                    r.mem[obj] = ite(c, assume(a, r.pc) if False else a, b2)
            for k in set(r.fver) | set(s.fver):
                if r.fver.get(k) is not s.fver.get(k):
                    r.fver[k] = S('jver', tuple(sorted((rep(r.fver.get(k)), rep(s.fver.get(k))))))
            r.pc = union
        return r

    # -------------------------------------------------------------- functions
    def exec_fn(self, fn, args, st, tag, keep=False):
        depth = len(self.fnstack)
        if depth > self.maxdepth or (fn in self.fnstack and self.fnstack.count(fn) > 1):
            raise Undecided('inlining depth at %s' % fn.uid)
        fr = (self.stack[-1] + '>' if self.stack else '') + tag + self.it
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
        self.fnstack.append(fn)
        self.stack.append(fr)
        self.visited_fns.add(fn.uid)
        it, self.it = self.it, ''
        mode, pc = self.mode, st.pc
        try:
            if mode == 'fork' and fn.argc and fn.cfg.reducible and all(fn.locals[i]['ty'] in SCALARS for i in range(fn.argc + 1)):
                # a computation on numbers: its branches stay inside the value
                self.mode = 'merge'
                r = self.region(fr, fn, None, 0, st)
                self.mode = mode
                rets = [self.join(r['ret'])] if r['ret'] else []
                for x in rets:
                    x.pc = pc
            elif self.mode == 'merge':
                if not fn.cfg.reducible:
                    raise Undecided('irreducible flow in %s' % fn.uid)
                r = self.region(fr, fn, None, 0, st)
                rets = r['ret']
                if not rets:
                    return []
                rets = [self.join(rets)]
            else:
                rets = self.exec_fork(fr, fn, st)
            out = []
            for s in rets:
                v = s.mem.get(('L', fr, 0), UNIT)
                if not keep:
                    for k in [k for k in s.mem if k[0] == 'L' and (k[1] == fr or k[1].startswith(fr + '>'))]:
                        del s.mem[k]
                out.append((v, s))
            return out
        finally:
            self.it = it
            self.mode = mode
            self.fnstack.pop()
            self.stack.pop()

    def region(self, fr, fn, loop, entry, st):
        cfg = fn.cfg
        res = {'ret': [], 'back': [], 'exit': []}
        pend = {entry: [st]}
        heap = [(cfg.rpo[entry], entry)]
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            if b not in pend:
                continue
            s = self.join(pend.pop(b))
            if b in cfg.loops and not (loop is not None and b == loop.header):
                outs = self.cfg_loop(fr, fn, cfg.loops[b], s)
            else:
                outs = self.exec_block(fr, fn, b, s)
            for t, s2 in outs:
                if t == 'ret':
                    res['ret'].append(s2)
                elif loop is not None and t == loop.header:
                    res['back'].append(s2)
                elif loop is not None and t not in loop.body:
                    res['exit'].append((t, s2))
                else:
                    if t not in pend:
                        pend[t] = []
                        heapq.heappush(heap, (cfg.rpo[t], t))
                    pend[t].append(s2)
        return res

    def cfg_loop(self, fr, fn, loop, st):
        lid = '%s@%d%s' % (fr, loop.header, self.it)

        def body(s):
            r = self.region(fr, fn, loop, loop.header, s)
            return r['back'], r['exit'] + [('ret', x) for x in r['ret']]
        n = self.constant_trips(fr, fn, loop, st)
        if n is not None:
            outs = self.unrolled(lid, fn, st, body, n)
            if outs is not None:
                return outs
        return self.run_loop(lid, fn, st, body)

    def constant_trips(self, fr, fn, loop, st):
        """the number of items of the iterator a loop runs over, where it is a small constant of the program"""
        import models as MODELS_
        for b in loop.body:
            t = fn.blocks[b]['t']
            if t['k'] != 'call' or not str(t['f'].get('path', '')).endswith('Iterator::next') or not t['args'] or t['args'][0]['k'] not in ('copy', 'move'):
                continue
            l = t['args'][0]['pl']['l']
            for s in reversed(fn.blocks[b]['s']):
                if s['k'] != '=' or s['pl']['l'] != l or s['pl']['p'] or s['rv']['k'] != 'ref':
                    continue
                src = s['rv']['pl']
                l = src['l']
                if src['p']:
                    if len(src['p']) == 1 and src['p'][0][0] == 'deref':
                        continue          # reborrowed
                    break
                v = st.mem.get(('L', fr, l))
                if isinstance(v, Agg) and MODELS_.is_iter(v):
                    n = MODELS_.it_count(v)
                    if n is not None and is_const(n) and 0 < cval(n) <= UNROLL:
                        return int(cval(n))
                break
        return None

    def unrolled(self, lid, fn, entry, body, n):
        """a loop over a constant number of items, one pass after the other; None if it does not end by itself"""
        mark = len(self.events)
        st, outs, old = entry, [], self.it
        for i in range(n + 1):
            self.it = '%s~%d' % (old, i)
            try:
                backs, exits = body(st.copy())
            finally:
                self.it = old
            outs += exits
            if not backs:
                return outs
            st = self.join(backs)
        del self.events[mark:]
        return None


    def run_loop(self, lid, fn, entry, body):
        info = LoopInfo(lid, fn)
        info.depth = len(self.loopstack)
        self.loops[lid] = info
        tmpl = {}
        elim = {}
        fields = {}
        mark = len(self.events)
        K = info.K
        for npass in range(60):
            del self.events[mark:]
            st = entry.copy()
            st.pc = TRUE
            for o, t in tmpl.items():
                st.mem[o] = t
            for f, v in fields.items():
                st.fver[f] = v
            info.extra_backs = []
            self.loopstack.append(info)
            try:
                backs, exits = body(st.copy())
            finally:
                self.loopstack.pop()
            backs = backs + info.extra_backs
            if not backs:
                # at most one iteration
                for t, s in exits:
                    s.pc = band(entry.pc, s.pc)
                info.nexts = {}
                info.tmpl, info.entry = tmpl, entry
                return exits
            bs = self.join(backs)
            changed = False
            for o in list(bs.mem):
                if o[0] == 'L' and o not in entry.mem:
                    continue
                new = bs.mem[o]
                cur = st.get(o)
                if new is cur:
                    continue
                if o[0] == 'A' and str(o[1]).startswith('promoted:') and o not in entry.mem:
                    vs = set(leafset(new)) - {UNDEF}      # a constant of the program, which some paths do not reach
                    if len(vs) == 1 and not self.loopdep_value(next(iter(vs)), info):
                        entry.mem[o] = next(iter(vs))
                        continue
                if self.loopdep(o, info):
                    # memory reached through a loop variable: written once per
                    # iteration; later reads of those fields get a new version
                    if isinstance(new, Overlay):
                        for k, _ in new.a[1]:
                            nm = k[1] if k[0] == 'f' else '[]'
                            if nm not in fields:
                                fields[nm] = S('ver', lid, nm)
                                changed = True
                    continue
                w = self.widen(tmpl.get(o, entry.get(o)), new, info, self.oname(o))
                if w is not tmpl.get(o, entry.get(o)):
                    tmpl[o] = w
                    changed = True
            for f, v in bs.fver.items():
                if f not in fields and entry.fver.get(f) is not v:
                    fields[f] = S('ver', lid, f)
                    changed = True
            if changed:
                continue
            # fixpoint: read the recurrences
            nexts, inits = {}, {}
            for o, t in tmpl.items():
                self.collect(t, bs.get(o), entry.get(o), info, nexts, inits)
            # eliminate loop variables with an exact closed form in K
            e2 = {}
            for p, nx in nexts.items():
                ini = inits[p]
                d = None
                if isinstance(nx, (Poly, Sym)) and not is_bool_leaf(nx) and nx is not p and contains(nx, p):
                    d = padd(nx, p, -1) if is_num_leaf(nx) else None
                    if d is not None and is_const(d) and not contains(ini, p):
                        e2[p] = add(ini, mul(d, K))
                        continue
                if not any(x in nexts for x in atoms(nx)) and not self.mentions_iter(nx, info):
                    prev = subst(nx, {K: sub(K, ONE)})
                    if not is_bool_leaf(ini):
                        e2[p] = ite(gt(K, ZERO, True), prev, ini)
                    continue
            if e2:
                for o in list(tmpl):
                    tmpl[o] = subst(tmpl[o], e2)
                continue
            info.nexts, info.inits = nexts, inits
            info.tmpl, info.entry = tmpl, entry
            break
        else:
            raise Undecided('no fixpoint for loop %s' % lid)
        info.backpc = bs.pc
        info.fields = fields
        info.exits = [(t, s.pc) for t, s in exits]
        # exits
        allpc = FALSE
        for t, s in exits:
            allpc = bor(allpc, s.pc)
        single = len(exits) >= 1
        n = None
        if len({t for t, _ in exits}) == 1:
            n = self.tripcount(allpc, info)
        info.n = n
        info.exitpc = allpc
        closed = {}
        if n is not None:
            closed = self.closed_forms(info, n)
        self.generic_forms(info, n, allpc, closed)
        info.closed = closed
        outs = []
        sm = dict(closed)
        if n is not None:
            sm[K] = n
        keys = frozenset(sm)
        for t, s in exits:
            xpc = restrict(s.pc, allpc)
            if atoms(xpc) & keys:
                xpc = subst(xpc, sm)
            s.pc = band(entry.pc, xpc)
            if keys:
                for o in list(s.mem):
                    v = s.mem[o]
                    if atoms(v) & keys:
                        s.mem[o] = subst(v, sm)
            for f, v in fields.items():
                s.fver[f] = v
            # forget iteration-local heap cells
            for o in [o for o in s.mem if o[0] == 'H' and self.loopdep(o, info)]:
                del s.mem[o]
            outs.append((t, s))
        return outs

    def generic_forms(self, info, n, allpc, closed):
        """value of the remaining loop variables after the loop, as a bound recurrence:
        fold(index, count | None, exit condition | None, initial, next, variables, counter)"""
        K = info.K
        rest = [p for p in info.nexts if p not in closed]
        usek = n is None
        if not rest and not usek:
            return
        done = {}

        def group(seed):
            out = []
            todo = list(seed)
            while todo:
                p = todo.pop(0)
                if p in out:
                    continue
                out.append(p)
                for x in sorted((x for x in atoms(info.nexts[p]) if x in info.nexts), key=rep):
                    if x not in out:
                        todo.append(x)
            return out
        condvars = sorted((x for x in atoms(allpc) if x in info.nexts), key=rep) if n is None else []

        def build(p):
            g = group(([p] if p is not None else []) + condvars)
            nx = [info.nexts[q] for q in g]
            ini = [info.inits[q] for q in g]
            cond = None if n is not None else allpc
            whole = tup(*(nx + ([cond] if cond is not None else [])))
            for x in atoms(whole):
                if x.h in ('ver',):
                    return None
                if x.h in ('phi', 'phiseq') and x not in info.nexts and str(x.a[1]).startswith(info.id):
                    return None
            if any(x in info.nexts for x in atoms(tup(*ini))):
                return None
            lv = self.beta(whole).a[1]
            for x in atoms(whole):
                if x.h == 'α':
                    lv = max(lv, x.a[1] + 1)
            b = S('β', lv)
            al = [S('α', lv, j) for j in range(len(g))]
            m = {q: a for q, a in zip(g, al)}
            m[K] = b
            nx = tuple(subst(x, m) for x in nx)
            cond = subst(cond, m) if cond is not None else None
            return S('fold', g.index(p) if p is not None else 'K', n, cond, tuple(ini), nx, tuple(al), b)
        for p in rest:
            v = build(p)
            if v is not None:
                closed[p] = v
        if usek:
            v = build(None)
            if v is not None:
                closed[K] = v

    def loopdep_value(self, v, info):
        return any(x is info.K or x.h in ('phi', 'phiseq', 'imp', 'ver') for x in atoms(v))

    def mentions_iter(self, v, info):
        """values that are fresh per iteration cannot be shifted"""
        for x in atoms(v):
            if x.h in ('imp', 'phi', 'phiseq') or (x.h == 'K' and x is not info.K and str(x.a[1]).startswith(info.id)):
                return True
            if x.h in ('ver', 'post'):
                return True
        return False

    def tripcount(self, exitpc, info):
        # exit exactly when !(n - K > 0)
        K = info.K
        if isinstance(exitpc, MT) and exitpc.a[1] is FALSE and exitpc.a[2] is TRUE and exitpc.a[0].h == 'gti':
            q = exitpc.a[0].a[1]
            d = pdict(q)
            if d.get(((K, 1),)) == -1:
                n = padd(q, K)
                if not contains(n, K) and not any(x.h in ('phi',) and x in info.nexts for x in atoms(n)):
                    return n
        return None

    def closed_forms(self, info, n):
        out = {}
        K = info.K
        pend = dict(info.nexts)
        for p, nx in pend.items():
            ini = info.inits[p]
            others = [x for x in atoms(nx) if x in pend and x is not p]
            if others or self.impure(nx, info):
                continue
            if contains(ini, p):
                continue
            f = self.closed1(p, nx, ini, n, info)
            if f is not None:
                out[p] = f
        return out

    def impure(self, v, info):
        for x in atoms(v):
            if x.h in ('imp', 'ver', 'post'):
                return True
            if x.h in ('phi', 'phiseq') and x not in info.nexts and not any(x in l.nexts for l in self.loopstack) and str(x.a[1]).startswith(info.id):
                return True
        return False

    def beta(self, v):
        lv = -1
        for x in atoms(v):
            if x.h == 'β':
                lv = max(lv, x.a[1])
        return S('β', lv + 1)

    def closed1(self, p, nx, ini, n, info):
        K = info.K
        if nx is p:
            return ini
        if isinstance(nx, Overlay) and nx.a[0] is p and len(nx.a[1]) == 1 and nx.a[1][0][0] == ('i', K):
            val = nx.a[1][0][1]
            own = S('idx', p, K)
            val = subst(val, {own: S('own', p.a[1])})
            if not contains(val, p):
                b = self.beta(val)
                val = subst(val, {K: b})
                return S('mapidx', ini, n, subst(val, {S('own', p.a[1]): idx(ini, b)}), b)
            return None
        if p.h == 'phiseq' or any(isinstance(x, Overlay) for x in leafset(nx)):
            return None
        # accumulations, possibly guarded
        d = None
        try:
            d = mapleaf(lambda x: padd(x, p, -1) if is_num_leaf(x) and not is_bool_leaf(x) and x.h not in ('f64', 'emptyvec', 'push') else UNDEF, nx)
        except Exception:
            d = None
        if d is not None and not contains(d, UNDEF) and not contains(d, p):
            b = self.beta(d)
            return add(ini, S('sum', n, subst(d, {K: b}), b))
        # pushes
        ls = leafset(nx)
        if all(x is p or (isinstance(x, Sym) and x.h == 'push' and x.a[1] is p and not contains(x.a[2], p)) for x in ls) and isinstance(ini, Sym) and ini.h == 'emptyvec':
            val = None
            for x in ls:
                if x is not p:
                    if val is not None:
                        return None
                    val = x.a[2]
            if val is not None:
                c = mapleaf(lambda x: FALSE if x is p else TRUE, nx)
                if contains(c, p):
                    return None
                b = self.beta(tup(val, c))
                if c is TRUE:
                    return S('vecof', n, subst(val, {K: b}), b)
                return S('filtered', n, subst(c, {K: b}), subst(val, {K: b}), b)
        # boolean flags
        at_t, at_f = cofb(nx, p, TRUE), cofb(nx, p, FALSE)
        if at_t is not None and not contains(at_t, p) and not contains(at_f, p):
            if at_f is FALSE and isb(at_t):
                b = self.beta(at_t)
                return band(ini, mt(S('all', n, subst(at_t, {K: b}), b), TRUE, FALSE))
            if at_t is TRUE and isb(at_f):
                b = self.beta(at_f)
                return bor(ini, bnot(mt(S('all', n, subst(bnot(at_f), {K: b}), b), TRUE, FALSE)))
        return None

    def oname(self, o):
        if o[0] == 'L':
            f = self.fnstack[-1]
            if o[2] is not None and isinstance(o[2], int) and o[1] == self.stack[-1] and o[2] < len(f.locals):
                return f.locals[o[2]]['n'] or '_%d' % o[2]
            return '%s.%s' % (o[1].split('>')[-1], o[2])
        return rep(o[1]) if len(o) > 1 else str(o)

    def loopdep(self, obj, info):
        if obj[0] != 'H':
            return False
        for x in atoms(obj[1]):
            if x is info.K:
                return True
            if x.h in ('phi', 'phiseq', 'imp') and str(x.a[1]).startswith(info.id):
                return True
            if x.h == 'K' and str(x.a[1]).startswith(info.id):
                return True
        return False

    def widen(self, t, n, info, path):
        if n is t:
            return t
        if isinstance(t, Sym) and t.h in ('phi', 'phiseq') and t.a[1] == info.id:
            return t
        if contains(t, info.K) and n is subst(t, {info.K: add(info.K, ONE)}):
            return t
        if isinstance(t, MT) and contains(t, info.K):
            # ite(K>0, prev(K-1), init): compare at K+1
            x = subst(t, {info.K: add(info.K, ONE)})
            c = gt(add(info.K, ONE), ZERO, True)
            if n is restrict(x, c):
                return t
        if isinstance(t, Agg) and isinstance(n, Agg) and t.a[:3] == n.a[:3]:
            return agg(t.a[0], t.a[1], t.a[2], tuple(self.widen(x, y, info, path + '.' + nm) for nm, x, y in zip(t.a[2], t.a[3], n.a[3])))
        tb, nb = tm._obase(t), tm._obase(n)
        if isinstance(n, Overlay) and (nb is tb or nb is t):
            if isinstance(t, Sym) and t.h in ('phi', 'phiseq') and t.a[1] == info.id:
                return t
            tw = t.a[1] if isinstance(t, Overlay) else ()
            keys = []
            for k, _ in tuple(tw) + n.a[1]:
                if k not in keys:
                    keys.append(k)
            if any(k[0] == 'i' and k not in [kk for kk, _ in tw] for k in keys):
                return S('phiseq', info.id, path, t)
            r = t
            for k in keys:
                a, b = read1(t, k), read1(n, k)
                if a is not b:
                    r = write1(r, k, self.widen(a, b, info, path + tm._prep(k)))
            return r
        if isinstance(n, Overlay) and isinstance(nb, Sym) and nb.h == 'phiseq' and nb.a[1] == info.id:
            return nb
        if isinstance(t, Overlay) and isinstance(n, Sym) and n is tb:
            r = t
            for k, _ in t.a[1]:
                if k[0] == 'i':
                    return S('phi', info.id, path)
                r = write1(r, k, self.widen(read1(t, k), read1(n, k), info, path + tm._prep(k)))
            return r
        return S('phi', info.id, path)

    def collect(self, t, new, init, info, nexts, inits):
        if isinstance(t, Sym) and t.h in ('phi', 'phiseq') and t.a[1] == info.id:
            nexts[t] = new
            inits[t] = init
            return
        if new is t and init is t:
            return
        if isinstance(t, Agg):
            for nm, x in zip(t.a[2], t.a[3]):
                self.collect(x, read1(new, ('f', nm)), read1(init, ('f', nm)), info, nexts, inits)
        elif isinstance(t, Overlay):
            for k, x in t.a[1]:
                self.collect(x, read1(new, k), read1(init, k), info, nexts, inits)
            self.collect(t.a[0], tm._obase(new), tm._obase(init), info, nexts, inits)

    # ------------------------------------------------------------------ fork
    def exec_fork(self, fr, fn, st):
        work = [(0, st)]
        rets = []
        seen = {}
        cfg = fn.cfg
        while work:
            b, s = work.pop()
            if b in cfg.loops:
                key = self.canon(fr, fn, b, s)
                if key is not None:
                    if key in seen.setdefault(b, set()):
                        continue
                    seen[b].add(key)
            for t, s2 in self.exec_block(fr, fn, b, s):
                if t == 'ret':
                    rets.append(s2)
                else:
                    work.append((t, s2))
        return rets

    def canon(self, fr, fn, b, st):
        return None

    # ----------------------------------------------------------------- calls
    def call(self, fr, fn, b, st, f, args, t):
        if f.get('k') != 'fn':
            v = self.operand(fr, st, f)
            r = self.call_value(st, v, args, 'bb%d' % b, t)
            return r
        path = strip_generics(f['path'])
        self.curcall = f
        lastname = path.split('::')[-1]
        # names under which a callee may be declared opaque: Type::method or method
        target = self.prog.fns.get(f['uid']) if f['uid'] else None
        if self.selfstack and (target is None or target.self_ty == '' and target.trait) and f.get('args') and f['args'][0] == 'Self' and not f.get('virt'):
            # a method of the implementing type, called from a default method of the trait
            c = self.prog.by.get((self.selfstack[-1].split('<')[0].split('::')[-1], lastname), [])
            c = [x for x in c if x.trait == path.split('::')[-2]] or c
            if c:
                target = c[0]
                f = dict(f, uid=target.uid)
        names = {path, lastname}
        if target is not None:
            names.add(target.label)
            names.add(target.uid)
        if f.get('virt') or target is None and path.split('::')[0] in ('hybridcvrp', 'hspec'):
            names.add(path.split('::')[-2] + '::' + lastname)
        m = None
        for n in names:
            if n in self.models:
                m = self.models[n]
                break
        self.cursite = '%s#%d%s' % (fr, b, self.it)
        self.curt = t
        if m is not None:
            r = m(self, st, f, args)
            if r is not None:
                return r
        if names & self.opaque:
            return self.opaque_call(st, (names & self.opaque).pop(), f, args, t, fn, b)
        if target is not None and not f.get('virt'):
            gen = target.self_ty == '' and target.trait and f.get('args') and f['args'][0] != 'Self'
            if gen:
                self.selfstack.append(f['args'][0])
            try:
                r = self.exec_fn(target, args, st, '%s#%d' % (target.name or 'closure', b))
            finally:
                if gen:
                    self.selfstack.pop()
            return r
        return self.opaque_call(st, path, f, args, t, fn, b)

    def call_value(self, st, v, args, tag, t=None):
        """call a closure / fn value with already untupled args"""
        if isinstance(v, MT):
            v = leafset(v)[0]
        if isinstance(v, Ref) or (isinstance(v, Sym) and v.h not in ('fn',)):
            inner = self.loadp(st, v)
            if isinstance(inner, Agg) and inner.a[0] == 'closure':
                return self.call_closure(st, inner, v, args, tag)
            if isinstance(inner, Sym) and inner.h == 'fn':
                v = inner
        if isinstance(v, Agg) and v.a[0] == 'closure':
            return self.call_closure(st, v, None, args, tag)
        if isinstance(v, Sym) and v.h == 'fn':
            u = v.a[2]
            if u in self.prog.fns:
                return self.exec_fn(self.prog.fns[u], args, st, tag)
            p = strip_generics(v.a[1])
            m = self.models.get(p)
            if m:
                r = m(self, st, {'path': v.a[1], 'uid': '', 'args': list(v.a[3]) if len(v.a) > 3 else [], 'closures': []}, args)
                if r is not None:
                    return r
            return [(S('call', p, tuple(args)), st)]
        return [(S('callv', v, tuple(args)), st)]

    def call_closure(self, st, clo, ptr, args, tag):
        fn = self.prog.fns.get(clo.a[1])
        if fn is None:
            return [(S('callv', clo, tuple(args)), st)]
        selfty = fn.locals[1]['ty']
        if selfty.startswith('&'):
            if ptr is None:
                ptr = self.alloc(st, clo, 'clo:%s:%s%s' % (self.stack[-1], tag, self.it))
            a0 = ptr
        else:
            a0 = clo
        return self.exec_fn(fn, [a0] + list(args), st, tag)

    def snapshot(self, st, args, tys=None):
        out = []
        for a in args:
            out.append(self.deep(st, a))
        return out

    def deep(self, st, a, d=0):
        """value with the pointees of references filled in (what a callee could observe)"""
        if d > 3:
            return a
        if isinstance(a, Ref):
            return S('&', self.deep(st, self.load(st, a.a[0], a.a[1]), d + 1))
        if isinstance(a, MT):
            return mapleaf(lambda x: self.deep(st, x, d), a)
        if isinstance(a, Agg) and (a.a[0] == 'tuple' or isinstance(a.a[0], str) and a.a[0].startswith('it:')):
            return agg(a.a[0], a.a[1], a.a[2], tuple(self.deep(st, x, d) for x in a.a[3]))
        if isinstance(a, Sym) and ('H', a) in st.mem:
            return S('&', self.deep(st, st.mem[('H', a)], d + 1))
        return a

    def argtys(self, fn_or_none, f, t, fr_fn):
        tys = []
        for a in t['args']:
            if a['k'] in ('copy', 'move'):
                tys.append(place_ty(self, fr_fn, a['pl']))
            else:
                tys.append(a.get('ty', ''))
        return tys

    def part(self, v, ty, touched, d=0):
        """the part of an argument that a function reads or writes"""
        if isinstance(v, Sym) and v.h == '&':
            return S('&', self.part(v.a[1], ty, touched, d))
        name = strip_generics(peel(ty)).split('::')[-1]
        fs = self.structs.get(name)
        own = touched.get(name, ())
        if fs is None or '*' in own or d > 2:
            return v
        use = [f for f in fs if f in own]
        if len(use) == len(fs):
            return v
        return agg('part:' + name, None, tuple(use), tuple(self.part(read1(v, ('f', f)), fs[f], touched, d + 1) for f in use))

    def written(self, ty, wr, d=0):
        """paths of a structure that a function may write"""
        name = strip_generics(peel(ty)).split('::')[-1]
        fs = self.structs.get(name)
        own = wr.get(name, ())
        if fs is None or '*' in own or d > 2:
            return [()]
        out = []
        for f in fs:
            if f in own:
                deep = self.written(fs[f], wr, d + 1) if not fs[f].startswith(('&', '*')) else [()]
                out += [(('f', f),) + p for p in deep]
        if len(out) >= len(fs) and all(len(p) == 1 for p in out):
            return [()]
        return out

    def opaque_call(self, st, name, f, args, t, fn, b):
        tys = self.argtys(None, f, t, fn)
        snap = self.snapshot(st, args)
        short = name if not name.startswith(('std::', 'core::', 'alloc::')) else name
        site = '%s#%d%s' % (self.stack[-1], b, self.it)
        ks = tuple(l.K for l in self.loopstack)
        impure = is_impure(name) and (not f.get('local') or name.split('::')[-1] in ('terminate', 'elapsed', 'elapsed_as_secs', 'elapsed_as_secs_f64'))
        target = self.prog.fns.get(f['uid']) if f.get('uid') else None
        touch = self.touch.get(target.label) if target is not None else None
        ptys = [target.locals[i + 1]['ty'] for i in range(target.argc)] if target is not None else []
        if touch and len(ptys) == len(snap):
            key = tuple(self.part(v, ty, touch[0]) for v, ty in zip(snap, ptys))
        else:
            key, touch = tuple(snap), None
        ret = S('imp', site, name, key, ks) if impure else S('call', name, key)
        if target is not None and target.locals[0]['ty'] == '()':
            ret = UNIT
        e = self.emit(st, 'call', name, args, snap=snap, sp=t['sp'], call=f)
        e.ret = ret
        for i, (a, ty) in enumerate(zip(args, tys)):
            if (ty.startswith('&mut') or ty.startswith("&'") and ' mut ' in ty[:20] or ty.startswith('*mut')) and name not in self.pure:
                for g, obj, proj in self.targets(a):
                    new = S('post', name, key, i) if not impure else S('post', name, key + (S('site', site),) + ks, i)
                    paths = self.written(ptys[i], touch[1]) if touch else [()]
                    for p in paths:
                        self.store(st, obj, tuple(proj) + p, read(new, p), g)
        eff = self.effects.get(target.label) if target is not None else None
        if eff:
            for i, (a, ty) in enumerate(zip(args, tys)):
                if ty.split('<')[0].endswith('Context'):
                    for x in sorted(eff):
                        for g, obj, proj in self.targets(a):
                            p = tuple(('f', q) for q in x.split('.'))
                            self.store(st, obj, tuple(proj) + p, S('post', name, key, x), g)
        e.post = st
        return [(ret, st)]


def cofb(v, p, b):
    """value of v when the boolean loop variable p is b; None when p is not used as a flag"""
    var = S('b', p)
    if var in atoms(v) or p in atoms(v):
        r = subst_lit(v, var, b, p)
        return r
    return v


def subst_lit(v, var, b, p):
    if v is p:
        return b
    if isinstance(v, MT):
        if v.a[0] is var:
            return subst_lit(v.a[1] if b is TRUE else v.a[2], var, b, p)
        return ite(mt(v.a[0], TRUE, FALSE), subst_lit(v.a[1], var, b, p), subst_lit(v.a[2], var, b, p))
    return v


def isb(v):
    return all(is_bool_leaf(x) for x in leafset(v))


def extend(proj, more):
    proj = tuple(proj)
    for k in more:
        if k[0] == 'i' and proj and proj[-1][0] == 'sub':
            lo = proj[-1][1]
            proj = proj[:-1] + (('i', add(lo, k[1])),)
        elif k[0] == 'sub' and proj and proj[-1][0] == 'sub':
            l0, h0 = proj[-1][1], proj[-1][2]
            lo = add(l0, k[1])
            hi = add(l0, k[2]) if k[2] is not None else h0
            proj = proj[:-1] + (('sub', lo, hi),)
        else:
            proj = proj + (k,)
    return proj


def place_ty(interp, fn, pl):
    """type string of a place when it is a bare local, else '' """
    if not pl['p']:
        return fn.locals[pl['l']]['ty']
    return ''


IMPURE = ('fastrand::', 'std::time::', 'instant::', 'Random::', 'rand', 'ahash::RandomState::new', 'terminate', 'elapsed')


def adtname(p):
    """types of the analysed crate are identified by their last path segment"""
    return p if p.startswith(('core::', 'alloc::')) else p.split('::')[-1]


def is_impure(name):
    return any(x in name for x in IMPURE)


MODELS = {}
