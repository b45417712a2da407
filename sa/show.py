"""Developer aid: print the summary of one function.  show.py [-o opaque,..] Type::name"""
import sys
from program import *
from interp import *
import models
from terms import *


def dist_get(I, st, f, a):
    return [(dist(a[1], a[2]), st)]


def main():
    opaque = []
    args = sys.argv[1:]
    if args[0] == '-o':
        opaque = args[1].split(',')
        args = args[2:]
    import facts, os
    P = Program([os.path.join(facts.facts(), 'hybridcvrp-%s.json' % os.environ.get('CRATE', 'lib'))])
    t, n = args[0].split('::') if '::' in args[0] else ('', args[0])
    fn = P.find(t, n)
    I = Interp(P, opaque=opaque, models={'DistanceMatrix::get': dist_get})
    a = [S('arg', fn.locals[i + 1]['n'] or 'a%d' % i) for i in range(fn.argc)]
    r = I.exec_fn(fn, a, State(), fn.name)
    for ret, s in r:
        print('RET', ret)
        for o, v in s.mem.items():
            print('  MEM', rep(o[1]) if o[0] == 'H' else o, '=', v)
    for l in (I.loops.values() if 'l' in args else []):
        print('LOOP', l.id, 'n=', l.n)
        for p, n in l.nexts.items():
            print('    ', p, 'init', l.inits[p], '\n         next', n, '\n         closed', l.closed.get(p))
    if len(args) > 1:
        for e in I.events:
            if e.kind != 'write' or 'w' in args:
                print(e)
    print(I.undecided)


main()
