"""Flow-insensitive, field-sensitive data flow over the MIR of the whole crate.
Nodes: ('l', function, local), ('f', type, field).  Edges follow assignments, references, calls (arguments to parameters,
results back, closures through the calls they are handed to)."""
from program import strip_generics


def ops_of(rv):
    k = rv['k']
    if k == 'use':
        return [rv['o']]
    if k == 'cast':
        return [rv['o']]
    if k in ('bin',):
        return [rv['a'], rv['b']]
    if k == 'un':
        return [rv.get('o') or rv.get('a')]
    if k == 'agg':
        return list(rv['ops'])
    if k == 'repeat':
        return [rv.get('o')]
    return []


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.local = {p for p in prog.adts}
        self.edges = {}
        self.calls = []          # (fn, block, terminator)
        self.callers = {}        # uid -> {uid}
        for fn in prog.fns.values():
            self.scan(fn)

    def edge(self, a, b):
        self.edges.setdefault(a, set()).add(b)

    def reads(self, fn, pl):
        out = [('l', fn.uid, pl['l'])]
        for e in pl['p']:
            if e[0] == 'field' and len(e) > 3 and str(e[3]).split('<')[0] in self.local:
                out.append(('f', str(e[3]).split('<')[0], e[2]))
        return out

    def writes(self, fn, pl):
        w = self.reads(fn, pl)
        return w[-1]

    def op(self, fn, o):
        if not o or o['k'] not in ('move', 'copy'):
            return []
        return self.reads(fn, o['pl'])

    def scan(self, fn):
        for i, b in enumerate(fn.blocks):
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] != '=':
                    continue
                d = self.writes(fn, s['pl'])
                rv = s['rv']
                if rv['k'] in ('ref', 'discr') or rv['k'] == 'addr':
                    for r in self.reads(fn, rv['pl']):
                        self.edge(r, d)
                    if rv.get('mut'):
                        self.edge(d, self.writes(fn, rv['pl']))
                    continue
                if rv['k'] == 'agg':
                    a = rv['a']
                    u = a.get('uid')
                    if a.get('t') == 'closure' or u in self.prog.fns:
                        for o in rv['ops']:
                            for r in self.op(fn, o):
                                self.edge(r, ('l', u, 1))
                                if o['k'] != 'const' and fn.locals[o['pl']['l']]['ty'].startswith('&mut'):
                                    self.edge(('l', u, 1), r)
                    names = a.get('fields') if a.get('t') == 'adt' and str(a.get('path', '')).split('<')[0] in self.local and not a.get('enum') else None
                    for n, o in enumerate(rv['ops']):
                        for r in self.op(fn, o):
                            if names and n < len(names):
                                self.edge(r, ('f', str(a['path']).split('<')[0], names[n]))
                            else:
                                self.edge(r, d)
                    continue
                for o in ops_of(rv):
                    for r in self.op(fn, o):
                        self.edge(r, d)
            t = b['t']
            if t['k'] != 'call':
                continue
            self.calls.append((fn, i, t))
            d = self.writes(fn, t['dst'])
            f = t['f']
            tg = []
            if f.get('uid') in self.prog.fns:
                tg = [f['uid']]
            elif f.get('virt') or f.get('local'):
                nm = (f.get('path') or '').split('::')[-1]
                tr = strip_generics(f.get('path') or '').split('::')
                tg = [g.uid for g in self.prog.fns.values() if g.name == nm and len(tr) > 1 and g.trait == tr[-2]]
            args = [self.op(fn, o) for o in t['args']]
            muts = [bool(o['k'] in ('move', 'copy') and fn.locals[o['pl']['l']]['ty'].startswith('&mut')) for o in t['args']]
            for u in tg:
                self.callers.setdefault(u, set()).add(fn.uid)
                for n, rs in enumerate(args):
                    for r in rs:
                        self.edge(r, ('l', u, n + 1))
                        if muts[n]:
                            self.edge(('l', u, n + 1), r)
                self.edge(('l', u, 0), d)
            cl = [c if isinstance(c, str) else c.get('uid', '') for c in f.get('closures') or ()]
            for u in cl:
                self.callers.setdefault(u, set()).add(fn.uid)
                g = self.prog.fns.get(u)
                if not g:
                    continue
                for rs in args:
                    for r in rs:
                        for p in range(2 if g.closure_parent else 1, g.argc + 1):
                            self.edge(r, ('l', u, p))
                self.edge(('l', u, 0), d)
            if not tg:
                for n, rs in enumerate(args):
                    for r in rs:
                        self.edge(r, d)
                        for m, rs2 in enumerate(args):
                            if m != n and muts[m]:
                                for r2 in rs2[-1:]:
                                    self.edge(r, r2)

    def reach(self, src, cut=lambda n, m: False):
        """-> {node: predecessor} of everything the sources flow into, not along an edge where `cut` holds"""
        seen = {n: None for n in src}
        work = list(src)
        while work:
            n = work.pop()
            for m in self.edges.get(n, ()):
                if m not in seen and not cut(n, m):
                    seen[m] = n
                    work.append(m)
        return seen

    def path(self, seen, n):
        out = []
        while n is not None and len(out) < 40:
            out.append(n)
            n = seen[n]
        return out[::-1]

    def show(self, n):
        if n[0] == 'f':
            return '%s.%s' % (n[1].split('::')[-1], n[2])
        f = self.prog.fns.get(n[1])
        if not f:
            return str(n[1:])
        nm = f.locals[n[2]]['n'] if n[2] < len(f.locals) else ''
        return '%s:%s' % (f.label, 'result' if n[2] == 0 else nm or '_%d' % n[2])

    def only_called_from(self, uid, ok, seen=()):
        """every caller chain of the function passes a function in `ok`"""
        if uid in ok:
            return True
        cs = set(self.callers.get(uid, set()))
        f = self.prog.fns.get(uid)
        if f is not None and f.closure_parent:
            cs.add(f.closure_parent)
        if not cs or uid in seen:
            return False
        return all(self.only_called_from(c, ok, seen + (uid,)) for c in cs)
