"""Facts loaded from the rustc driver, with control-flow structure per function."""
import json
import re


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            # keep '<impl ...>' path segments readable: drop every generic list
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.rstrip(':')


def short_ty(t):
    t = t.strip()
    t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    b = t.split('<')[0]
    return b.split('::')[-1]


class Fn:
    def __init__(self, d):
        self.d = d
        self.uid = d['uid']
        self.name = d['name']
        self.self_ty = short_ty(d['self_ty']) if d['self_ty'] else ''
        self.trait = d['trait'].split('<')[0].split('::')[-1] if d['trait'] else ''
        self.argc = d['argc']
        self.locals = d['locals']
        self.blocks = d['blocks']
        self.closure_parent = d['closure_parent']
        self.file = d['sp'].split(':')[0]
        self.line = d['sp'].split(':')[1] if ':' in d['sp'] else ''
        self._cfg = None

    @property
    def label(self):
        if self.self_ty:
            return '%s::%s' % (self.self_ty, self.name)
        if self.closure_parent:
            return '%s closure' % self.closure_parent.split('::')[-1]
        return self.name

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            return [x for _, x in t['ts']] + [t['other']]
        if k in ('drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


class Loop:
    __slots__ = ('header', 'body', 'parent', 'children')

    def __init__(self, header, body):
        self.header, self.body, self.parent, self.children = header, body, None, []


class CFG:
    def __init__(self, fn):
        n = len(fn.blocks)
        self.fn = fn
        post, seen = [], set()
        stack = [(0, iter(fn.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.succ(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.order = rpo
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in fn.succ(b):
                preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = new, p
                    while a != c:
                        while self.rpo[a] > self.rpo[c]:
                            a = idom[a]
                        while self.rpo[c] > self.rpo[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        self.reducible = True
        for b in rpo:
            for s in fn.succ(b):
                if self.rpo[s] <= self.rpo[b]:
                    if not self.dominates(s, b):
                        self.reducible = False
                        continue
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.loops = {h: Loop(h, body) for h, body in loops.items()}
        for h, l in self.loops.items():
            best = None
            for h2, l2 in self.loops.items():
                if h2 != h and h in l2.body and (best is None or len(l2.body) < len(best.body)):
                    best = l2
            l.parent = best
            if best:
                best.children.append(l)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Program:
    def __init__(self, files):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.by = {}
        for f in files:
            d = json.load(open(f))
            for x in d['fns']:
                fn = Fn(x)
                self.fns.setdefault(fn.uid, fn)
            for a in d['adts']:
                self.adts[a['path']] = a
            self.impls += d['impls']
        for fn in self.fns.values():
            self.by.setdefault((fn.self_ty, fn.name), []).append(fn)
        if len(files) > 1:
            self.link()
        self.closures = {}
        for fn in self.fns.values():
            if fn.closure_parent:
                self.closures.setdefault(fn.closure_parent, []).append(fn)

    def link(self):
        """resolve calls across the crates (they are printed by their public path)"""
        two = {}
        for fn in self.fns.values():
            if not fn.closure_parent:
                two.setdefault(tuple(strip_generics(fn.d['path']).split('::')[-2:]), []).append(fn.uid)
                two.setdefault((fn.name,), []).append(fn.uid)
        for fn in self.fns.values():
            for b in fn.blocks:
                t = b['t']
                if t['k'] != 'call' or t['f'].get('uid') or not (t['f'].get('path') or '').startswith('hybridcvrp::'):
                    continue
                p = strip_generics(t['f'].get('path')).split('::')
                c = two.get(tuple(p[-2:])) or (two.get((p[-1],)) if p[-2].islower() else None)
                if c and len(c) == 1:
                    t['f']['uid'] = c[0]
                    t['f']['local'] = True

    def find(self, self_ty, name, trait=None):
        c = [f for f in self.by.get((self_ty, name), []) if trait is None or f.trait == trait]
        c = [f for f in c if not f.closure_parent]
        return c[0] if c else None

    def adt(self, name):
        for p, a in self.adts.items():
            if p.split('::')[-1] == name:
                return a
        return None

    def calls(self, fn):
        """[(block, terminator)]"""
        for i, b in enumerate(fn.blocks):
            if b['c']:
                continue
            if b['t']['k'] == 'call':
                yield i, b['t']

    CELLS = {'Config': 'config', 'SearchHistory': 'search_history', 'Random': 'random'}

    def effects(self):
        """fields of the shared context cells each function may write: label -> {'config.penalty_capacity', 'random.rng', ...}"""
        if hasattr(self, '_eff'):
            return self._eff
        own, callees = {}, {}

        def fieldof(pl):
            for el in pl['p']:
                if el[0] == 'field' and len(el) > 3:
                    a = str(el[3]).split('<')[0].split('::')[-1]
                    if a in self.CELLS:
                        return '%s.%s' % (self.CELLS[a], el[2])
            return None
        for fn in self.fns.values():
            e, cs = set(), set()
            for b in fn.blocks:
                if b['c']:
                    continue
                for s in b['s']:
                    if s['k'] != '=':
                        continue
                    x = fieldof(s['pl'])
                    base = fn.locals[s['pl']['l']]['ty']
                    if x and base.startswith('&mut'):
                        e.add(x)
                    rv = s['rv']
                    if rv['k'] == 'ref' and rv.get('mut'):
                        x = fieldof(rv['pl'])
                        if x and fn.locals[rv['pl']['l']]['ty'].startswith('&mut'):
                            e.add(x)
                    if rv['k'] == 'agg' and rv.get('uid') in self.fns:
                        cs.add(rv['uid'])
                t = b['t']
                if t['k'] != 'call':
                    continue
                f = t['f']
                p = f.get('path') or ''
                if (p.startswith('fastrand::Rng') or '::Rng::' in p) and p.split('::')[-1] not in ('with_seed', 'new', 'clone') or 'RefCell' in p and p.endswith('::replace'):
                    e.add('random.rng')
                if 'RefCell' in p and p.endswith('borrow_mut') and f.get('args') == ['u64']:
                    e.add('iteration')
                if f.get('uid'):
                    cs.add(f['uid'])
                for c in f.get('closures') or ():
                    cs.add(c if isinstance(c, str) else c.get('uid', ''))
                if f.get('virt'):
                    for g in self.fns.values():
                        if g.name == p.split('::')[-1] and g.trait == p.split('::')[-2]:
                            cs.add(g.uid)
            own[fn.uid], callees[fn.uid] = e, cs
        for c, fs in self.closures.items():
            callees.setdefault(c, set()).update(x.uid for x in fs)
        ch = True
        while ch:
            ch = False
            for u, cs in callees.items():
                for c in cs:
                    if c in own and u in own and not own[c] <= own[u]:
                        own[u] = own[u] | own[c]
                        ch = True
        self._eff = {}
        for u, e in own.items():
            e = {x for x in e if x not in ('search_history.messages', 'search_history.log_new_best', 'config.split_capacity_factor')}
            if e:
                self._eff[self.fns[u].label] = e
        return self._eff


# externals that only hand out parts of their arguments (what is done with the parts is seen in the caller)
HANDOUT = {'borrow', 'borrow_mut', 'deref', 'deref_mut', 'index', 'index_mut', 'as_ref', 'as_mut', 'iter', 'iter_mut', 'into_iter', 'next', 'len', 'is_empty', 'unwrap', 'expect',
           'push', 'get', 'get_mut', 'first', 'last', 'first_mut', 'last_mut', 'as_slice', 'as_mut_slice', 'enumerate', 'map', 'filter', 'for_each', 'rev', 'zip', 'skip', 'take', 'clear', 'from_fn',
           'as_ptr', 'as_deref', 'branch', 'into', 'any', 'all', 'fold', 'sum', 'count', 'values', 'values_mut', 'chain', 'position', 'find', 'contains_key', 'is_some', 'is_none', 'as_deref_mut', 'windows', 'copied', 'cloned'}
HANDOUT -= {'cloned'}


def peel(t):
    """the type behind references, boxes and cells"""
    t = (t or '').strip()
    while True:
        n = re.sub(r"^&('[\w{}#]+ )?(mut )?|^\*(mut|const) ", '', t).strip()
        m = re.match(r'^([\w:]*::)?(RefCell|Box|Cell|Ref|RefMut)<(.*)>$', n)
        if m:
            n = re.sub(r"^'\w+, ", '', m.group(3))
        if n == t:
            return t
        t = n


def touches(prog):
    """per function: which fields of which structs its execution may read or write, and which it may write; '*' = any.  label -> (touched, written)"""
    if hasattr(prog, '_touch'):
        return prog._touch
    structs = {}
    for p, a in prog.adts.items():
        if not a.get('enum') and len(a.get('variants', ())) == 1:
            structs[p.split('::')[-1]] = {f['n']: f['ty'] for f in a['variants'][0]['fields']}
    prog.structs = structs
    own, callees = {}, {}
    word = re.compile(r'\b(%s)\b' % '|'.join(map(re.escape, structs))) if structs else None

    for fn in prog.fns.values():
        T, W, cs = set(), set(), set()

        def place(pl, wr, fn=fn, T=T, W=W):
            ty = fn.locals[pl['l']]['ty']
            for el in pl['p']:
                if el[0] == 'deref':
                    ty = re.sub(r"^&('[\w{}#]+ )?(mut )?|^\*(mut|const) ", '', ty or '').strip()
                    m = re.match(r'^([\w:]*::)?Box<(.*)>$', ty)
                elif el[0] == 'field':
                    a = strip_generics(str(el[3])).split('::')[-1] if len(el) > 3 and el[3] else None
                    if a in structs:
                        T.add((a, el[2]))
                        if wr:
                            W.add((a, el[2]))
                        ty = structs[a].get(el[2])
                    else:
                        ty = None
                elif el[0] == 'index':
                    m = re.match(r'^\[(.*?)(; .*)?\]$', ty or '')
                    ty = m.group(1) if m else None
            return ty

        def struct(ty):
            if not ty or ty.startswith(('&', '*')):
                return None
            a = strip_generics(ty).split('::')[-1]
            return a if a in structs else None

        def whole(pl, wr):
            a = struct(place(pl, wr))
            if a and (pl['p'] or not wr):
                if pl['p']:
                    T.add((a, '*'))
                    if wr:
                        W.add((a, '*'))

        def operand(o):
            if isinstance(o, dict) and o.get('k') in ('copy', 'move'):
                whole(o['pl'], False)

        def rvalue(rv):
            for k, v in rv.items():
                if k == 'pl' and isinstance(v, dict):
                    place(v, bool(rv.get('mut')))
                elif isinstance(v, dict) and 'k' in v:
                    operand(v)
                elif isinstance(v, list):
                    for x in v:
                        operand(x)
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=':
                    whole(s['pl'], True)
                    rvalue(s['rv'])
                    if s['rv']['k'] == 'agg' and s['rv'].get('uid') in prog.fns:
                        cs.add(s['rv']['uid'])
                elif 'pl' in s:
                    place(s['pl'], True)
            t = b['t']
            if t['k'] == 'switch':
                operand(t['d'])
            if t['k'] != 'call':
                continue
            f = t['f']
            for a in t['args']:
                operand(a)
            if t.get('dst'):
                whole(t['dst'], True)
            if f.get('uid') in prog.fns:
                cs.add(f['uid'])
            elif f.get('virt') or not f.get('path'):
                pass
            elif strip_generics(f['path']).split('::')[-1] not in HANDOUT:
                for a in t['args']:
                    ty = fn.locals[a['pl']['l']]['ty'] if a['k'] in ('copy', 'move') and not a['pl']['p'] else str(a.get('ty', ''))
                    for x in word.findall(ty) if word else ():
                        T.add((x, '*'))
                        if '&mut' in ty or ' mut ' in ty or '*mut' in ty:
                            W.add((x, '*'))
            for c in f.get('closures') or ():
                cs.add(c if isinstance(c, str) else c.get('uid', ''))
            if f.get('virt'):
                p = f.get('path') or ''
                for g in prog.fns.values():
                    if g.name == p.split('::')[-1] and g.trait == p.split('::')[-2]:
                        cs.add(g.uid)
        own[fn.uid], callees[fn.uid] = (T, W), cs
    for c, fs in prog.closures.items():
        callees.setdefault(c, set()).update(x.uid for x in fs)
    ch = True
    while ch:
        ch = False
        for u, cs in callees.items():
            if u not in own:
                continue
            T, W = own[u]
            n = len(T) + len(W)
            for c in cs:
                if c in own:
                    T |= own[c][0]
                    W |= own[c][1]
            if len(T) + len(W) != n:
                ch = True
    out = {}
    for u, (T, W) in own.items():
        lab = prog.fns[u].label
        old = out.setdefault(lab, ({}, {}))
        for src, dst in ((T | W, old[0]), (W, old[1])):
            for a, f in src:
                dst.setdefault(a, set()).add(f)
    prog._touch = out
    return out
