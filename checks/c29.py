"""No failure of an input or output operation is discarded."""
import re
from common import *
from c05 import whole, MAIN
from program import strip_generics

# failures that are not failures of input or output
EXEMPT = ('fmt::Error', 'ParseFloatError', 'ParseIntError', 'ParseBoolError', 'ParseCharError', 'LayoutError', 'LayoutErr', 'TryFromIntError', 'TryFromSliceError', 'TryFromFloatSecsError',
          'SetLoggerError', 'VarError', 'SystemTimeError', 'BorrowError', 'BorrowMutError', 'RecvError', 'Infallible', 'usize', '()', '!', 'Utf8Error', 'FromUtf8Error', 'Duration')
STRONG = ('unwrap', 'expect', 'map', 'map_err', 'and_then', 'and', 'unwrap_err', 'expect_err', 'inspect', 'inspect_err', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'cloned', 'copied',
          'branch', 'into_ok', 'transpose', 'unwrap_unchecked', 'from_residual', 'from_output', 'report', 'flatten', 'context', 'with_context')
IGNORING = ('unwrap_or', 'unwrap_or_default', 'map_or', 'is_ok_and', 'is_err_and', 'iter', 'into_iter', 'iter_mut')
SAMEITEM = ('Take', 'Skip', 'StepBy', 'Rev', 'Peekable', 'Fuse', 'TakeWhile', 'SkipWhile', 'Filter', 'Inspect', 'Chain')


def targs(t):
    """type arguments of a type"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for k, c in enumerate(t[i + 1:-1]):
        if c in '<([{':
            d += 1
        elif c in ')]}' or c == '>' and t[i + k] != '-':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return [x for x in out + [cur.strip()] if x and not x.startswith("'")]


def bare(t):
    return re.sub(r"^(&('\w+ )?(mut )?)+", '', t.strip())


def base(t):
    return bare(t).split('<')[0].split('::')[-1]


def failure(t):
    """the failure type a result carries, if it is one this property is about"""
    t = bare(t)
    if base(t) not in ('Result', 'ControlFlow'):
        return None
    a = targs(t)
    if base(t) == 'ControlFlow':
        r = next((x for x in a if base(x) == 'Result'), None)
        return failure(r) if r else None
    if len(a) == 1:
        return 'std::io::Error' if 'io::' in t.split('<')[0] else None
    if len(a) != 2:
        return None
    e = bare(a[1])
    if any(e == x or e.endswith('::' + x) or base(e) == x for x in EXEMPT) or re.match(r'^[A-Z]\w?$', e):
        return None
    return e


def placety(fn, pl):
    """type of a place, where it can be told"""
    t = fn.locals[pl['l']]['ty']
    v = None
    for e in pl['p']:
        if t is None:
            return None
        if e[0] == 'deref':
            t = re.sub(r"^&('\w+ )?(mut )?", '', t.strip()) if t.strip().startswith('&') else (targs(t) or [None])[0] if base(t) == 'Box' else None
        elif e[0] == 'downcast':
            v = e[-1] if isinstance(e[-1], str) else e[2]
        elif e[0] == 'field':
            a = targs(bare(t))
            b = base(t)
            if b == 'Option' and a:
                t = a[0]
            elif b == 'Result' and a:
                t = a[0] if v == 'Ok' else a[-1]
            elif b == 'ControlFlow' and a:
                t = a[0] if v == 'Break' else a[-1]
            elif bare(t).startswith('('):
                xs = targs('T<' + bare(t)[1:-1] + '>')
                i = int(e[1]) if str(e[1]).isdigit() else -1
                t = xs[i] if 0 <= i < len(xs) else None
            else:
                t = None
            v = None
        else:
            t = None
    return t


class Rule:
    def __init__(self, k):
        self.k = k
        self.prog = k.prog
        self.div = self.diverging()
        self.n = 0

    def diverging(self):
        """functions that never return"""
        div = set()
        while True:
            new = {u for u, f in self.prog.fns.items() if u not in div and not self.returns(f, 0, div, set())}
            if not new:
                return div
            div |= new

    def endcall(self, t, div=None):
        f = t['f']
        return t['t'] is None or f.get('uid') in (self.div if div is None else div)

    def returns(self, fn, b, div, seen):
        work = [b]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            t = fn.blocks[b]['t']
            if t['k'] == 'return':
                return True
            if t['k'] == 'call' and self.endcall(t, div):
                continue
            work += fn.succ(b)
        return False

    # ------------------------------------------------------------ one edge
    def edge(self, fn, b):
        """what becomes of the failure once control is at block b: None (reported), or a complaint"""
        seen, work = set(), [b]
        bad = None
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            blk = fn.blocks[b]
            stop = False
            for s in blk['s']:
                if s['k'] != '=':
                    continue
                rv = s['rv']
                ty = fn.locals[s['pl']['l']]['ty']
                if rv['k'] == 'agg' and rv['a'].get('vname') in ('Err', 'Break') and (failure(ty) or s['pl']['l'] == 0 or base(rv['a'].get('path', '')) == 'Result'):
                    stop = True
                elif rv['k'] == 'use' and s['pl']['l'] == 0 and not s['pl']['p'] and failure(ty):
                    stop = True
            t = blk['t']
            if stop:
                continue
            if t['k'] == 'return':
                return 'the function returns normally after the failure'
            if t['k'] == 'call':
                p = strip_generics(t['f'].get('path') or '')
                if p.endswith('process::exit') and t['args'] and t['args'][0]['k'] == 'const' and str(t['args'][0].get('v')) == '0':
                    return 'the program ends with a success status after the failure'
                if p.endswith('from_residual') or self.endcall(t):
                    continue
                if t['dst']['l'] == 0 and not t['dst']['p'] and failure(fn.locals[0]['ty']):
                    continue
            work += fn.succ(b)
        return bad

    def kept(self, fn, pl):
        """the error value is moved somewhere else than into a message"""
        roots = [('Err', pl['l'], len(pl['p']))]
        moved = set()
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=' and s['rv']['k'] == 'use' and s['rv']['o']['k'] in ('move', 'copy'):
                    q = s['rv']['o']['pl']
                    if q['l'] == pl['l'] and any(e[0] == 'downcast' and 'Err' in e for e in q['p']):
                        if s['pl']['p']:
                            return True
                        moved.add(s['pl']['l'])
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=':
                    rv = s['rv']
                    ops = rv.get('ops') or ([rv['o']] if rv['k'] == 'use' else [])
                    for o in ops:
                        if o.get('k') == 'move' and o['pl']['l'] in moved and not o['pl']['p']:
                            return True
            t = b['t']
            if t['k'] == 'call':
                for o in t['args']:
                    if o['k'] == 'move' and o['pl']['l'] in moved:
                        p = strip_generics(t['f'].get('path') or '')
                        if not p.startswith(('log::', 'core::fmt', 'std::fmt', 'std::mem::drop', 'core::mem::drop')):
                            return True
        return False

    # ------------------------------------------------------------ one value
    def value(self, fn, l, depth=0):
        """-> (strong uses, complaints, open questions) of a local holding a result (or a reference to one)"""
        strong, bad, ask = 0, [], []
        for bi, b in enumerate(fn.blocks):
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] != '=':
                    continue
                rv = s['rv']
                at = s.get('sp', '')
                if rv['k'] == 'discr' and rv['pl']['l'] == l and failure(placety(fn, rv['pl']) or ''):
                    r = self.branch(fn, bi, s['pl']['l'], rv['pl'])
                    if r is None:
                        strong += 1
                    elif r[0] == 'ask':
                        ask.append((at, r[1]))
                    else:
                        bad.append((at, r[1]))
                if rv['k'] in ('ref', 'addr') and rv['pl']['l'] == l and failure(placety(fn, rv['pl']) or '') and depth < 4 and not s['pl']['p']:
                    st, bd, ak = self.value(fn, s['pl']['l'], depth + 1)
                    strong, bad, ask = strong + st, bad + bd, ask + ak
                for o in (rv.get('ops') or ([rv['o']] if rv['k'] in ('use', 'cast') and rv.get('o') else [])):
                    if o['k'] in ('move', 'copy') and o['pl']['l'] == l and failure(placety(fn, o['pl']) or ''):
                        if s['pl']['l'] == l:
                            continue
                        strong += 1         # the new holder is judged on its own
            t = b['t']
            if t['k'] != 'call':
                continue
            for n, o in enumerate(t['args']):
                if o['k'] not in ('move', 'copy') or o['pl']['l'] != l or not failure(placety(fn, o['pl']) or ''):
                    continue
                v = self.call(fn, bi, t, n)
                at = t.get('sp', '')
                if v is None:
                    strong += 1
                elif v[0] == 'ask':
                    ask.append((at, v[1]))
                else:
                    bad.append((at, v[1]))
        return strong, bad, ask

    def branch(self, fn, bi, d, pl):
        """the branch on a result's variant"""
        cur = bi
        for _ in range(6):
            t = fn.blocks[cur]['t']
            if t['k'] == 'switch' and t['d']['k'] in ('move', 'copy') and t['d']['pl']['l'] == d:
                break
            if t['k'] != 'goto':
                return ('ask', 'the variant is inspected in a way the rule does not follow')
            cur = t['t']
        else:
            return ('ask', 'the variant is inspected in a way the rule does not follow')
        br = base(placety(fn, pl) or '') == 'ControlFlow'
        tgt = dict((int(v), b) for v, b in t['ts'])
        e = tgt.get(1, t['other'])
        if fn.blocks[e]['t']['k'] == 'unreachable':
            return None
        if br:
            return None if self.edge(fn, e) is None else ('bad', self.edge(fn, e))
        c = self.edge(fn, e)
        if c is None:
            return None
        if self.kept(fn, pl):
            return ('ask', 'the error value is kept for later')
        return ('bad', c)

    def boolean(self, fn, bi, l, err):
        """a truth value that is `err` on failure"""
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] != '=':
                    continue
                rv = s['rv']
                if rv['k'] == 'un' and (rv.get('o') or rv.get('a') or {}).get('pl', {}).get('l') == l:
                    return self.boolean(fn, bi, s['pl']['l'], not err)
                if rv['k'] == 'use' and rv['o']['k'] in ('move', 'copy') and rv['o']['pl']['l'] == l:
                    if s['pl']['l'] == 0:
                        return ('returned', '')
                    return self.boolean(fn, bi, s['pl']['l'], err)
            t = b['t']
            if t['k'] == 'switch' and t['d']['k'] in ('move', 'copy') and t['d']['pl']['l'] == l:
                z = dict((int(v), x) for v, x in t['ts'])
                tgt = z.get(1 if err else 0, t['other'])
                c = self.edge(fn, tgt)
                return None if c is None else ('bad', c)
        return ('bad', 'the outcome of the test is not used') if l != 0 else ('returned', '')

    def option(self, fn, l):
        """what becomes of an option that is empty on failure"""
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=' and s['rv']['k'] == 'use' and s['rv']['o']['k'] in ('move', 'copy') and s['rv']['o']['pl']['l'] == l and not s['rv']['o']['pl']['p']:
                    return ('returned', '') if s['pl']['l'] == 0 else self.option(fn, s['pl']['l'])
                if s['k'] == '=' and s['rv']['k'] == 'discr' and s['rv']['pl']['l'] == l:
                    for c in fn.blocks:
                        t = c['t']
                        if t['k'] == 'switch' and t['d']['k'] in ('move', 'copy') and t['d']['pl']['l'] == s['pl']['l']:
                            z = dict((int(v), x) for v, x in t['ts'])
                            e = self.edge(fn, z.get(0, t['other']))
                            return None if e is None else ('bad', e)
            t = b['t']
            if t['k'] == 'call' and any(o['k'] in ('move', 'copy') and o['pl']['l'] == l for o in t['args']):
                nm = strip_generics(t['f'].get('path') or '').split('::')[-1]
                if nm in ('unwrap', 'expect', 'ok_or', 'ok_or_else'):
                    return None
                if nm in ('unwrap_or_else',):
                    return self.closure(fn, t)
                return ('ask', 'the failure becomes an empty option passed to %s' % nm)
        return ('returned', '') if l == 0 else ('bad', 'the failure is turned into an empty option that is ignored')

    def closure(self, fn, t):
        us = [c if isinstance(c, str) else c.get('uid', '') for c in t['f'].get('closures') or ()]
        for o in t['args']:
            if o['k'] == 'fn' and o.get('uid'):
                us.append(o['uid'])
        if not us:
            return ('ask', 'what is called on failure is not known')
        if all(u in self.div for u in us):
            return None
        for u in us:
            g = self.prog.fns.get(u)
            if g is not None and u not in self.div:
                e = self.edge(g, 0)
                if e is not None:
                    return ('bad', 'on failure %s supplies a value instead' % (g.label if not g.closure_parent else 'a closure'))
        return None

    def handed_to(self, fn):
        """the adapters a closure is handed to"""
        out = []
        for g in self.prog.fns.values():
            for b in g.blocks:
                t = b['t']
                if b['c'] or t['k'] != 'call' or not t['args']:
                    continue
                o = t['args'][-1]
                if o['k'] not in ('move', 'copy') or fn.uid not in [c if isinstance(c, str) else c.get('uid', '') for c in t['f'].get('closures') or ()]:
                    continue
                ty = g.locals[o['pl']['l']]['ty']
                if any(s['k'] == '=' and s['rv']['k'] == 'agg' and s['rv']['a'].get('uid') == fn.uid and s['pl']['l'] == o['pl']['l'] for c in g.blocks for s in c['s']):
                    out.append(strip_generics(t['f']['path']).split('::')[-1])
        return out

    def returned(self, fn, what):
        if fn.closure_parent:
            h = self.handed_to(fn)
            if any(x in ('filter_map', 'flat_map', 'map_while', 'filter', 'take_while', 'skip_while', 'partition') for x in h):
                return ('bad', '%s skips the failed items' % h[0])
        return ('ask', what)

    def call(self, fn, bi, t, n):
        p = strip_generics(t['f'].get('path') or '')
        seg = p.split('::')
        nm = seg[-1]
        d = t['dst']
        if 'Result' in seg or 'Try' in seg or 'FromResidual' in seg or nm == 'branch':
            if nm in STRONG:
                return None
            if nm in IGNORING:
                return ('bad', '%s goes on without the failure' % nm)
            if nm in ('is_ok', 'is_err'):
                r = self.boolean(fn, bi, d['l'], nm == 'is_err') if not d['p'] else ('ask', 'the outcome is stored')
                return self.returned(fn, 'only the outcome is returned') if r and r[0] == 'returned' else r
            if nm == 'ok':
                r = self.option(fn, d['l']) if not d['p'] else ('ask', 'the option is stored')
                return self.returned(fn, 'the failure becomes an empty option') if r and r[0] == 'returned' else r
            if nm in ('unwrap_or_else', 'map_or_else'):
                return self.closure(fn, t)
            return ('ask', 'passed to Result::%s' % nm)
        if nm == 'drop' and 'mem' in seg:
            return ('bad', 'dropped')
        if t['f'].get('uid') in self.prog.fns:
            return None                     # its parameter is judged there
        if nm in ('from', 'into', 'Some'):
            return None
        return ('ask', 'passed to %s' % p)

    # ------------------------------------------------------------ everything
    def run(self):
        k = self.k
        for fn in self.prog.fns.values():
            if '_::' in fn.uid or (fn.file and not fn.file.startswith('src/')) or '{impl#' in fn.uid and fn.trait in ('Serialize', 'Deserialize', 'Visitor', 'DeserializeSeed', 'Debug'):
                continue
            for l in range(1, len(fn.locals)):
                ty = fn.locals[l]['ty']
                if not failure(ty) or (ty.strip().startswith('&') and l > fn.argc) or base(ty) == 'ControlFlow':
                    continue
                at = self.born(fn, l)
                if at is None:
                    continue
                self.n += 1
                strong, bad, ask = self.value(fn, l)
                lab = '%s: result with failure %s' % (fn.label, failure(ty))
                where = '%s %s' % (at, fn.label)
                if bad:
                    k.put(lab, '%s %s' % (bad[0][0], fn.label), 'violated', 'the failure is discarded: ' + '; '.join(x for _, x in bad))
                elif ask:
                    k.put(lab, where, 'undecided', '; '.join(x for _, x in ask))
                elif not strong:
                    k.put(lab, where, 'violated', 'the result is dropped without being looked at')
                else:
                    k.put(lab, where, 'ok', 'every use unwraps it, passes it on, or ends abnormally on failure')
            self.calls(fn)

    def born(self, fn, l):
        if l <= fn.argc:
            return '%s:%s' % (fn.file, fn.line)
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=' and s['pl']['l'] == l:
                    if s['rv']['k'] == 'agg' and s['rv']['a'].get('vname') == 'Ok':
                        continue
                    return s.get('sp', '')
            t = b['t']
            if t['k'] == 'call' and t['dst']['l'] == l:
                return t.get('sp', '')
        return None

    def itemtype(self, t):
        """does an iterator of this type yield results of input operations"""
        t = bare(t)
        while base(t) in SAMEITEM and targs(t):
            t = targs(t)[0]
        head = t.split('<')[0]
        return head in ('std::io::Lines', 'std::io::Split', 'std::io::Bytes', 'std::fs::ReadDir')

    def calls(self, fn):
        k = self.k
        for b in fn.blocks:
            t = b['t']
            if b['c'] or t['k'] != 'call':
                continue
            f = t['f']
            p = strip_generics(f.get('path') or '')
            nm = p.split('::')[-1]
            a = [x for x in f.get('args') or () if not x.startswith("'")]
            where = '%s %s' % (t.get('sp', ''), fn.label)
            if 'Iterator' in p and nm == 'flatten' and a and (self.itemtype(a[0]) or self.mapped(a[0], f)):
                self.n += 1
                k.put('%s: flatten over results' % fn.label, where, 'violated', 'flatten skips the failed items of an input operation')
            if 'Iterator' in p and nm in ('filter_map', 'flat_map', 'map_while', 'filter', 'take_while') and a:
                for o in t['args'][1:]:
                    if o['k'] == 'fn' and strip_generics(o.get('path', '')).endswith(('Result::ok', 'Result::is_ok')) and (self.itemtype(a[0]) or 'io::Error' in str(a)):
                        self.n += 1
                        k.put('%s: %s(Result::ok) over results' % (fn.label, nm), where, 'violated', '%s skips the failed items of an input operation' % nm)
                    if o['k'] == 'fn' and strip_generics(o.get('path', '')).endswith('::into_iter') and self.itemtype(a[0]):
                        k.put('%s: flat_map over results' % fn.label, where, 'violated', 'flat_map skips the failed items of an input operation')
            if 'Iterator' in p and nm in ('count', 'last', 'nth', 'for_each') and a and self.itemtype(a[0]) and nm in ('count', 'last'):
                k.put('%s: %s over results' % (fn.label, nm), where, 'violated', '%s looks at no failure of the input operation' % nm)
            if nm == 'write' and 'io::Write' in p or nm == 'read' and 'io::Read' in p:
                self.n += 1
                k.put('%s: partial %s' % (fn.label, nm), where, *self.partial(fn, t, nm))
            if nm == 'catch_unwind':
                k.put('%s: catch_unwind' % fn.label, where, 'undecided', 'abnormal ends may be caught here')
        for l, x in enumerate(fn.locals):
            if base(x['ty']) in ('BufWriter', 'LineWriter', 'IntoInnerError') and not x['ty'].startswith('&'):
                self.buffered(fn, l, x['ty'])

    def mapped(self, t, f):
        t = bare(t)
        while base(t) in SAMEITEM and targs(t):
            t = targs(t)[0]
        if base(t) != 'Map':
            return False
        us = [c if isinstance(c, str) else c.get('uid', '') for c in f.get('closures') or ()]
        m = re.search(r'\{closure@([^}]*)\}$', targs(t)[-1])
        at = m.group(1).split(':') if m else None
        for u in us:
            g = self.prog.fns.get(u)
            if g is not None and at and g.file == at[0] and g.line == at[1]:
                return bool(failure(g.locals[0]['ty']))
        return False

    def partial(self, fn, t, nm):
        """the number of bytes an operation reports must be looked at"""
        d = t['dst']['l']
        names, seen = {d}, {d}
        for _ in range(8):
            for b in fn.blocks:
                if b['c']:
                    continue
                for s in b['s']:
                    if s['k'] == '=' and s['rv']['k'] in ('use', 'ref', 'discr') and (s['rv'].get('o') or {}).get('pl', s['rv'].get('pl') or {}).get('l') in names:
                        names.add(s['pl']['l'])
                q = b['t']
                if q['k'] == 'call' and any(o['k'] in ('move', 'copy') and o['pl']['l'] in names for o in q['args']):
                    names.add(q['dst']['l'])
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] == '=' and s['rv']['k'] == 'bin' and any(o['k'] in ('move', 'copy') and o['pl']['l'] in names for o in (s['rv']['a'], s['rv']['b'])):
                    return ('ok', 'the reported number of bytes is looked at')
        if 0 in names:
            return ('undecided', 'the reported number of bytes is returned')
        return ('violated', 'the number of bytes %s is ignored: %s may transfer only a part' % ('written' if nm == 'write' else 'read', nm))

    def buffered(self, fn, l, ty):
        """a buffered writer that is dropped loses the failure of its last write"""
        dropped = any(b['t']['k'] == 'drop' and b['t']['pl']['l'] == l and not b['c'] for b in fn.blocks)
        if not dropped:
            return
        self.n += 1
        for b in fn.blocks:
            t = b['t']
            if b['c'] or t['k'] != 'call':
                continue
            p = strip_generics(t['f'].get('path') or '').split('::')
            if p[-1] in ('flush', 'into_inner', 'into_parts') and any(base(x) in ('BufWriter', 'LineWriter') or base(ty) in x for x in t['f'].get('args') or ()) or p[-1] in ('flush', 'into_inner') and any(base(ty) in x for x in p):
                self.k.put('%s: buffered writer' % fn.label, '%s %s' % (t.get('sp', ''), fn.label), 'ok', 'flushed before it is dropped')
                return
        us = [t['f']['uid'] for b in fn.blocks for t in (b['t'],) if t['k'] == 'call' and not b['c'] and t['f'].get('uid') in self.prog.fns
              and any(o['k'] in ('move', 'copy') and base(fn.locals[o['pl']['l']]['ty']) == base(ty) for o in t['args'])]
        if us:
            self.k.put('%s: buffered writer' % fn.label, '%s:%s %s' % (fn.file, fn.line, fn.label), 'undecided', 'handed to another function')
        else:
            self.k.put('%s: buffered writer' % fn.label, '%s:%s %s' % (fn.file, fn.line, fn.label), 'violated', 'dropped without a flush: the failure of the last write is lost')


def check(k):
    k.rule('every value of type Result whose failure is one of input or output is unwrapped, returned, passed on, or branched on with a failure edge from which no normal return is reachable '
           '(panics, non-zero exits and returned errors are reports); adapters that skip failed items, ignored byte counts and unflushed buffered writers are discards')
    k.rule('the functions that open, read and write files end abnormally exactly when the reference functions do')
    whole(k)
    r = Rule(k)
    r.run()
    k.refs(('ProblemParser::read_file', dict(panics=True)), ('Config::read_yaml_file', dict(panics=True)), ('Config::load_yaml_file@Config::default', dict(panics=True)),
           ('Config::update_from_yaml_file', dict(panics=True)), ('write_solution_file', dict(panics=True)), (MAIN, dict(panics=True)))
