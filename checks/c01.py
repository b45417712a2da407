"""In deterministic mode nothing but the seed (and the sanctioned uses of the clock) reaches the search."""
from common import *
import os
import facts
import rint
from terms import rep
from program import Program, short_ty
from program import strip_generics
from taint import Flow
import re

STD_STATE = re.compile(r'(std|core)::(collections::hash_map|hash|hash::random|collections::hash::map)::RandomState')
HASHED = re.compile(r'(HashMap|HashSet|AHashMap|AHashSet)<')
ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'retain', 'into_keys', 'into_values', 'drain_filter', 'extract_if',
        'union', 'intersection', 'difference', 'symmetric_difference', 'serialize', 'fmt'}
MAKE = {'new', 'with_capacity', 'default', 'from', 'from_iter', 'collect', 'clone_default', 'from_par_iter'}


def path_of(t):
    return strip_generics(t['f'].get('res') or t['f'].get('path') or '')


def entropy(t):
    """what kind of fresh randomness a call brings in, or None"""
    p = path_of(t)
    raw = strip_generics(t['f'].get('path') or '')
    last = p.split('::')[-1]
    ps = (p, raw)
    if any(x.startswith('fastrand::Rng::new') or x.startswith('<fastrand::Rng as std::default::Default>') or x == 'fastrand::Rng::default' for x in ps) \
            or raw.endswith('Default::default') and 'fastrand::Rng' in str(t['f'].get('args')):
        return 'a generator seeded from the environment'
    if any(re.match(r'fastrand::[a-z_0-9]+$', x) for x in ps):
        return 'the thread-local generator'
    if any('RandomState::new' in x or 'RandomState::default' in x or 'generate_with' in x for x in ps) \
            or raw.endswith('Default::default') and any('RandomState' in a and not HASHED.search(a) for a in t['f'].get('args', ())):
        return 'a hasher with random keys'
    if any(re.match(r'(getrandom|rand|rand_core|rand_chacha|oorandom|uuid)::', x) for x in ps):
        return 'an outside random source'
    if any(re.match(r'std::(process::id|thread::(spawn|scope|current|park)|env::)', x) for x in ps) or any(x.startswith(('rayon::', 'std::sync::mpsc')) for x in ps):
        return 'the environment or a thread'
    return None


def check(k):
    d = facts.facts()
    P = Program([os.path.join(d, 'hybridcvrp-lib.json'), os.path.join(d, 'hybridcvrp-bin.json')])
    F = Flow(P)
    n = 0
    # ---- fresh randomness only where the configuration is not deterministic
    k.rule('every call that brings in fresh randomness (environment-seeded generator, thread-local generator, randomly keyed hasher, outside random source) stands under a condition that '
           'implies that no seed is set; where the function cannot know, the same holds for every call of it')
    sums = {}

    def summary(fn):
        if fn.uid not in sums:
            try:
                sums[fn.uid] = k.runfn(fn, opaque=('Random::new', 'MatrixProvider::new', 'SearchHistory::new', 'Context::setup'), prog=P, models={'Random::new': None, 'Random::from_seed': None, 'Random::random_state': None, 'Random::reset': None})
            except Exception as e:
                sums[fn.uid] = None
        return sums[fn.uid]

    def guards(fn):
        """conditions, over the function's parameters, under which no seed is set"""
        out = []
        for i in range(1, fn.argc + 1):
            ty = short_ty(fn.locals[i]['ty'])
            a = A('self') if i == 1 and fn.locals[1]['n'] == 'self' else A('a%d' % (i - 1 if fn.locals[1]['n'] != 'self' else i - 1))
            v = a.d if fn.locals[i]['ty'].startswith('&') else a
            if ty == 'Random':
                out.append(Is(v.seed, 'None'))
            elif ty == 'Config':
                out.append(~v.deterministic)
            elif ty == 'Context':
                out.append(~v.config.deterministic)
                out.append(Is(v.random.seed, 'None'))
        return out

    def judge(fn, block, t, what, seen=()):
        lab = '%s in %s' % (what, fn.label)
        wh = '%s:%s %s' % (t['sp'].split(':')[0], t['sp'].split(':')[1], fn.label)
        gs = guards(fn)
        s = summary(fn) if gs else None
        if gs and s is not None:
            ev = [e for e in s.events if e.sp == t['sp'] and e.fn is not None and e.fn.uid == fn.uid]
            if not ev:
                return k.undecided(lab, wh, 'the call does not appear in the summary of the function')
            for g in gs:
                rs = [rint.implies(e.pc, lift(g)) for e in ev]
                if all(r[0] for r in rs):
                    return k.put(lab, wh, 'ok', 'path condition implies that no seed is set')
            if any(r[0] is None for r in rs):
                return k.undecided(lab, wh, str(rs[0][1]))
            return k.put(lab, wh, 'violated', 'reached although a seed may be set; path condition %s' % cut(rep(ev[0].pc), 300))
        if gs:
            return k.undecided(lab, wh, 'the function could not be summarised')
        if fn.uid in seen:
            return None
        up = fn.closure_parent
        cs = [(g, b, c) for g, b, c in F.calls if c['f'].get('uid') == fn.uid
              or fn.uid in [x if isinstance(x, str) else x.get('uid', '') for x in c['f'].get('closures') or ()]]
        if not cs:
            if fn.name == 'main':
                return k.put(lab, wh, 'violated', 'in the main program, without regard to the seed')
            return k.put(lab, wh, 'ok', 'never called inside the program')
        for g, b, c in cs:
            judge(g, b, c, what + ' through ' + fn.label, seen + (fn.uid,))

    sites = 0
    for fn, b, t in F.calls:
        w = entropy(t)
        if not w or fn.file.startswith('src/wasm'):
            continue
        if w.startswith('the environment') and not fn.file.startswith('src/solver'):
            continue
        sites += 1
        judge(fn, b, t, w)
    n += 1
    k.stats['call sites of fresh randomness'] = sites
    k.stats['calls inspected'] = len(F.calls)
    # ---- hash orders
    k.rule('no hash table whose hasher is not keyed by the configured seed is ever iterated over')
    iterated = set()
    for fn, b, t in F.calls:
        if path_of(t).split('::')[-1] in ITER or (t['f'].get('path') or '').split('::')[-1] in ITER:
            for o in t['args'][:1]:
                if o['k'] in ('move', 'copy'):
                    ty = fn.locals[o['pl']['l']]['ty'] if not o['pl']['p'] else ''
                    if HASHED.search(ty):
                        iterated.add(base(ty))
                    ga = t['f'].get('args') or []
                    if len(ga) in (2, 3) and re.search(r'Hash(Map|Set)', t['f'].get('path') or ''):
                        iterated.add(('Map' if 'HashMap' in t['f']['path'] else 'Set') + '<%s>' % ','.join(canon_args(ga)))
    bad = 0
    for fn, b, t in F.calls:
        dt = fn.locals[t['dst']['l']]['ty'] if not t['dst']['p'] else ''
        raw = t['f'].get('path') or ''
        if not HASHED.match(strip_ref(dt)) or raw.split('::')[-1] not in MAKE or dt.startswith('&'):
            continue
        if t['f'].get('uid') in P.fns:
            continue
        bs = base(dt)
        seeded = 'ahash' in dt and raw.split('::')[-1] not in MAKE
        if seeded:
            continue
        if escapes_iterated(F, fn, t['dst']['l'], bs, iterated):
            bad += 1
            k.put('hash table with random keys', '%s %s' % (t['sp'], fn.label), 'violated', 'a table of type %s is created without the seed and is iterated over' % dt[:160])
        else:
            k.put('hash table with random keys', '%s %s' % (t['sp'], fn.label), 'ok', 'never iterated over')
    k.put('hash tables', '%d kinds of table iterated over' % len(iterated), 'ok' if not bad else 'violated', 'see above')
    n += 1
    # ---- the clock
    k.rule('no branch outside the stop condition, the time-based schedule and output depends on a clock reading, and no clock reading seeds a generator (data flow over the whole program)')
    src = []
    for fn, b, t in F.calls:
        p = path_of(t) + ' ' + strip_generics(t['f'].get('path') or '')
        if re.search(r'(Instant|SystemTime|DateTime|Utc|Local)(::| as ).*?\b(now|elapsed|duration_since|checked_duration_since|saturating_duration_since)\b', p) or re.search(r'::(Instant|SystemTime)::(now|elapsed|duration_since)', p):
            src.append(F.writes(fn, t['dst']))
    sinks_ok = {f.uid for f in P.fns.values() if f.self_ty == 'TimeSchedule' or f.label == 'Context::terminate' or f.trait in ('Debug', 'Display', 'Serialize') or f.d.get('derived')}
    sched = {f.uid for f in P.fns.values() if f.self_ty == 'TimeSchedule' or f.label == 'Context::terminate'}

    def cutting(a, b):
        if a[0] == 'l' and a[1] in sched:
            return not (b[0] == 'l' and (b[1] == a[1] or b[1] in sched) or b[0] == 'f' and b[1].endswith('::TimeSchedule'))
        return False
    seen = F.reach(src, cutting)
    nsw = 0
    for fn in P.fns.values():
        if fn.file.startswith('src/wasm'):
            continue
        for i, b in enumerate(fn.blocks):
            t = b['t']
            if b['c'] or t['k'] not in ('switch', 'call'):
                continue
            if t['k'] == 'switch':
                hit = [r for r in F.op(fn, t['d']) if r in seen]
                what = 'a branch'
            else:
                if not re.search(r'with_seeds?$|::seed$|from_seed$|Rng::(usize|f64|u64|shuffle)', path_of(t)):
                    continue
                hit = [r for o in t['args'] for r in F.op(fn, o) if r in seen]
                what = 'a generator'
            if not hit:
                continue
            nsw += 1
            wh = '%s %s' % (t['sp'], fn.label)
            if F.only_called_from(fn.uid, sinks_ok) and what == 'a branch':
                k.put('clock decides %s' % what, wh, 'ok', 'stop condition, time schedule or output')
            elif what == 'a branch' and only_output(P, fn, i):
                k.put('clock decides %s' % what, wh, 'ok', 'the branch only writes output')
            else:
                k.put('clock decides %s' % what, wh, 'violated', ' -> '.join(F.show(x) for x in F.path(seen, hit[0])))
    k.put('clock readings', '%d places read the clock, %d branches depend on them' % (len(src), nsw), 'ok', '')
    n += 1
    k.stats['data flow edges'] = sum(map(len, F.edges.values()))
    # ---- the generator and its seed
    k.rule('the generator of the context is the seeded one whenever a seed is set, in the problem and in its subproblems; its draws come from that generator')
    off = {'Random::' + x: None for x in ('new', 'from_seed', 'reset', 'random_state', 'real', 'range_usize', 'sample_from_vec', 'shuffle')}
    k.refs(*[('Random::' + x, dict(models=off)) for x in ('sample_from_vec', 'real', 'range_usize', 'shuffle')],
           'Context::new@MatrixProvider::new,Context::setup,SearchHistory::new', 'Context::from_mapping@from_mapping')
    for nm in ('random_state', 'reset'):
        s = k.run('Random', nm, models=off)
        if s:
            for x in ('new', 'generate_with', 'default'):
                pass
            t = s.ret if nm == 'random_state' else s.mem(self_)
            k.put('%s uses the seed' % nm, k.where(s), 'ok' if 'seed' in rep(lift(t)) else 'violated', 'the result does not depend on the seed')
            n += 1
    return n + 5


def strip_ref(t):
    return re.sub(r'^.*?((A?Hash(Map|Set))<)', r'\1', t.split('<')[0] + '<' + '<'.join(t.split('<')[1:])) if HASHED.search(t.split('<')[0] + '<') else t


def canon_args(ga):
    return [re.sub(r"'\w+", '', a).replace(' ', '') for a in ga]


def base(ty):
    m = re.search(r'Hash(Map|Set)<(.*)>$', ty.replace('&', '').replace('mut ', '').strip())
    if not m:
        return ty
    args, d, cur = [], 0, ''
    for c in m.group(2):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        if c == ',' and d == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += c
    args.append(cur.strip())
    return m.group(1) + '<%s>' % ','.join(canon_args(args))


def escapes_iterated(F, fn, l, bs, iterated):
    """may the table created in local l be iterated over?"""
    locs, work = {l}, [l]
    while work:
        x = work.pop()
        for b in fn.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s['k'] != '=':
                    continue
                rv = s['rv']
                src = [rv['pl']] if rv['k'] in ('ref',) else [o['pl'] for o in ([rv['o']] if rv['k'] in ('use', 'cast') else rv.get('ops', ()) if rv['k'] == 'agg' else ()) if o and o['k'] in ('move', 'copy')]
                for pl in src:
                    if pl['l'] == x:
                        if s['pl']['p'] or rv['k'] == 'agg' or s['pl']['l'] == 0:
                            return bs in iterated or any(i.split('<')[1] == bs.split('<')[1] for i in iterated if '<' in i)
                        if s['pl']['l'] not in locs:
                            locs.add(s['pl']['l'])
                            work.append(s['pl']['l'])
            t = b['t']
            if t['k'] == 'call':
                for o in t['args']:
                    if o['k'] in ('move', 'copy') and o['pl']['l'] == x:
                        nm = (t['f'].get('path') or '').split('::')[-1]
                        if nm in ITER:
                            return True
                        if t['f'].get('uid') in F.prog.fns or nm in ('replace', 'swap', 'insert', 'push') and o is not t['args'][0]:
                            return bs in iterated
    return l == 0 and bs in iterated


def only_output(P, fn, block):
    """everything that one arm of the branch does and the other does not is output"""
    def region(b):
        out, work = set(), [b]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            work.extend(y for y in fn.succ(x) if not fn.cfg.dominates(y, x))
        return out
    arms = [region(s) for s in fn.succ(block)]
    if not arms:
        return False
    common_ = set.intersection(*arms)
    for a in arms:
        for b in a - common_:
            bl = fn.blocks[b]
            for s in bl['s']:
                if s['k'] == '=' and s['pl']['p'] and any(e[0] == 'deref' for e in s['pl']['p']):
                    return False
            t = bl['t']
            if t['k'] == 'call':
                p = (t['f'].get('path') or '')
                if not (re.search(r'(^|::)(log|fmt|cmp|io|string|elapsed\w*|format|borrow|deref|max_level|as_secs\w*|new_\w+)(::|$)', strip_generics(p)) or p.split('::')[-1] in ('log', 'add_message', 'to_string')):
                    return False
            if t['k'] == 'return':
                return False
    return True
