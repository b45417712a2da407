"""Every configuration value is honoured: key <-> setting pairing of the derived (de)serialisers, and no setting is ignored or silently overwritten."""
from common import *
import os
import re
import facts
from program import Program, strip_generics

# settings the solver itself keeps up to date while it runs (how is decided by the reference functions)
RUNNING = {'num_vehicles', 'penalty_capacity', 'elite_education', 'max_iterations', 'split_capacity_factor', 'solution_path'}


def places(o):
    if isinstance(o, dict):
        if 'l' in o and isinstance(o.get('p'), list):
            yield o
        for v in o.values():
            yield from places(v)
    elif isinstance(o, list):
        for v in o:
            yield from places(v)


def cfields(pl):
    return [e[2] for e in pl['p'] if e[0] == 'field' and str(e[3]).split('::')[-1] == 'Config']


def constarg(o):
    return o.get('v') if o.get('k') == 'const' else None


def check(k):
    d = facts.facts()
    P = Program([os.path.join(d, 'hybridcvrp-lib.json'), os.path.join(d, 'hybridcvrp-bin.json')])
    adt = P.adt('Config')
    fields = [f['n'] for f in adt['variants'][0]['fields']]
    types = [f['ty'] for f in adt['variants'][0]['fields']]
    k.stats['settings'] = len(fields)

    # ---- derived serialiser: key k_f is written with the value of field f, for every field
    k.rule('the derived serialiser writes every setting of Config, unconditionally, under a key of its own, and the derived deserialiser takes the value found under that key into the same setting')
    ser = next((f for f in P.fns.values() if f.self_ty == 'Config' and f.name == 'serialize'), None)
    vs = next((f for u, f in P.fns.items() if f.name == 'visit_str' and 'config' in u and '::deserialize' in u), None)
    vm = next((f for u, f in P.fns.items() if f.name == 'visit_map' and 'config' in u and '::deserialize' in u), None)
    if ser is None or vs is None or vm is None or not ser.d['derived'] or not vs.d['derived']:
        k.undecided('derived conversions of Config', adt['path'] if 'path' in adt else 'Config', 'Config does not derive Serialize and Deserialize')
    else:
        out, skipped = {}, False
        for b in ser.blocks:
            t = b['t']
            if b.get('c') or t['k'] != 'call':
                continue
            nm = strip_generics(t['f'].get('path') or '').split('::')[-1]
            if nm == 'skip_field':
                skipped = True
            if nm != 'serialize_field':
                continue
            key, src = constarg(t['args'][1]), t['args'][2]
            fs = behind(ser, src['pl']['l']) if src.get('k') != 'const' else []
            out.setdefault(fs[0] if len(fs) == 1 else None, []).append(key)
        got = {}
        for b in vs.blocks:
            t = b['t']
            if b.get('c') or t['k'] != 'call' or strip_generics(t['f'].get('path') or '').split('::')[-1] != 'eq':
                continue
            key = constarg(t['args'][1])
            tb = vs.blocks[t['t']]
            if tb['t']['k'] != 'switch':
                continue
            v = variant(vs, taken(tb['t']))
            if v:
                got.setdefault(v, []).append(key)
        read = [[a for a in b['t']['f'].get('args', ()) if not a.startswith("'")][-1] for b in vm.blocks
                if b['t']['k'] == 'call' and strip_generics(b['t']['f'].get('path') or '').split('::')[-1] == 'next_value']
        read = [t for t in read if t != 'serde::de::IgnoredAny']
        for i, f in enumerate(fields):
            ks, ds = out.get(f, []), got.get('__field%d' % i, [])
            ok = len(ks) == 1 and ks[0] in ds and ks[0] == f
            k.put('key %s' % f, k.where(ser), 'ok' if ok else 'violated',
                  'written and read under its own name' if ok else 'the setting %s is written under %s and read from %s' % (f, ks or 'no key', ds or 'no key'))
        k.put('no setting is left out of the conversion', k.where(ser), 'violated' if skipped or None in out else 'ok',
              'a setting is skipped or converted by other code on writing' if skipped or None in out else '%d fields written' % len(fields))
        k.put('values are taken over as they are', k.where(vm), 'ok' if read == types else 'violated',
              'the value of each key is read with the type of its setting' if read == types else 'the types read are not those of the settings: %s' % [(a, b) for a, b in zip(read, types) if a != b][:4])

    # ---- every setting is read by the solver or the program
    k.rule('every setting is read somewhere outside the configuration module; apart from the running state (%s) no setting is written outside it' % ', '.join(sorted(RUNNING)))
    reads, writes = {}, {}
    for f in P.fns.values():
        if f.d['derived'] or f.self_ty == 'Config' or (f.closure_parent and 'config::' in f.closure_parent):
            continue
        for b in f.blocks:
            if b.get('c'):
                continue
            for s in b['s']:
                pl = s.get('pl')
                rv = s.get('rv') or {}
                if isinstance(pl, dict):
                    for x in cfields(pl):
                        writes.setdefault(x, []).append(f)
                if rv.get('k') == 'ref' and rv.get('mut'):
                    for x in cfields(rv['pl']):
                        writes.setdefault(x, []).append(f)
                if rv.get('k') == 'agg' and str(rv['a'].get('path', '')).split('::')[-1] == 'Config' and not rv['a'].get('enum'):
                    writes.setdefault('(all)', []).append(f)
                for p in places(rv):
                    for x in cfields(p):
                        reads.setdefault(x, []).append(f)
            t = b['t']
            if t['k'] == 'call':
                for x in cfields(t.get('dst') or {'p': []}):
                    writes.setdefault(x, []).append(f)
                for p in places([t.get('args')]):
                    for x in cfields(p):
                        reads.setdefault(x, []).append(f)
            for p in places(t.get('d') or {}):
                for x in cfields(p):
                    reads.setdefault(x, []).append(f)
    for x in fields:
        r = sorted({f.label for f in reads.get(x, ())})
        k.put('setting %s is read' % x, 'Config.%s' % x, 'ok' if r else 'violated',
              'read by %s' % ', '.join(r[:6]) if r else 'no function of the solver or the program reads the setting %s: giving it has no effect' % x)
    for x in sorted(writes):
        if x in RUNNING:
            continue
        k.put('setting %s is not overwritten' % x, k.where(writes[x][0]), 'violated', 'the setting %s is overwritten by %s' % (x, ', '.join(sorted({f.label for f in writes[x]}))))
    k.put('settings keep the value they were given', 'Config', 'ok', '%d settings, %d written by the solver (%s)' % (len(fields), len(set(writes) & RUNNING), ', '.join(sorted(set(writes) & RUNNING))))

    # ---- the configuration file that comes with the program
    k.rule('every key of the configuration file that comes with the program names a setting')
    repo = os.environ.get('HSA_REPO', '/repo')
    p = os.path.join(repo, 'config.yml')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'([A-Za-z_][A-Za-z_0-9]*)\s*:', line)
            if m:
                ok = m.group(1) in fields
                k.put('key %s of config.yml' % m.group(1), 'config.yml', 'ok' if ok else 'violated', 'names a setting' if ok else 'no setting has the name %s: the value given is silently ignored' % m.group(1))


def behind(fn, l, seen=()):
    """fields of Config a reference in a local points to"""
    fs = []
    for b in fn.blocks:
        for s in b['s']:
            rv = s.get('rv') or {}
            if not (isinstance(s.get('pl'), dict) and s['pl']['l'] == l and not s['pl']['p']):
                continue
            pl = rv['pl'] if rv.get('k') == 'ref' else rv['o'].get('pl') if rv.get('k') == 'use' else None
            if pl is None:
                continue
            c = cfields(pl)
            if c:
                fs += c
            elif pl['l'] not in seen:
                fs += behind(fn, pl['l'], seen + (l,))
    return fs


def taken(t):
    """target of a switch on a boolean when it is true"""
    for v, b in t['ts']:
        if int(v) != 0:
            return b
    return t['other']


def variant(fn, b):
    for _ in range(4):
        if b is None:
            return None
        blk = fn.blocks[b]
        for s in blk['s']:
            rv = s.get('rv') or {}
            if rv.get('k') == 'agg' and str(rv['a'].get('vname', '')).startswith('__field'):
                return rv['a']['vname']
        if blk['t']['k'] != 'goto':
            return None
        b = blk['t']['t']
    return None
