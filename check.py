#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.dont_write_bytecode = True
import threading


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import facts
    from chk import Check
    c = Check(pid, tier)
    try:
        import table
        mod = importlib.import_module(pid.lower()) if os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')) else None
        try:
            n = (mod.check(c) if mod else 0) or 0
            n += table.check(c, pid)
        except facts.BuildError:
            raise
        except Exception as e:
            import traceback
            traceback.print_exc(file=sys.stdout)
            c.undecided('analysis', 'checks/%s.py' % pid.lower(), 'internal error %r' % e)
            n = 1
        return c.finish(n or 1)
    except facts.BuildError as e:
        print(e)
        print('VIOLATION property=%s replay=%s the tree does not build' % (pid, 'none'))
        return 1


if __name__ == '__main__':
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
