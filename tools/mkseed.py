#!/usr/bin/env python3
"""mkseed.py ID: build /verif/seeded/ID from tools' input in /tmp/seed/ID
 (edit.py: function edit(read, write) on the sources; test.rs: test module source, first line '// FILE <path>'; meta.json)
 and confirm it: builds, stable tests pass, demo passes without and fails with the patch."""
import json, os, shutil, subprocess, sys, tempfile
ID = sys.argv[1]
SRC = '/tmp/seed/' + ID
OUT = '/verif/seeded/' + ID
DEMO = r'''#!/bin/bash
# copies the tree to a scratch directory, adds a test module to one source file there and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
D=$PWD; . /opt/vp/env.sh; cd "$D"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp -r src benches instances config.yml Cargo.toml Cargo.lock "$W"/
F=$(head -1 "$HERE/demo_test.rs" | sed 's/^.. FILE //')
cat "$HERE/demo_test.rs" >> "$W/$F"
if [ -d target/debug/deps ]; then
    mkdir -p "$W/target/debug"
    cp -a target/debug/deps target/debug/.fingerprint target/debug/build "$W/target/debug/"
fi
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout -k 5 250 cargo test --offline --lib seeded_demo -- --test-threads 1 > "$W/log" 2>&1
rc=$?
grep -v '^warning' "$W/log" | tail -25
grep -q 'test result: ok. [1-9]' "$W/log" || exit 1
exit $rc
'''
def sh(c, cwd):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
def main():
    os.makedirs(OUT, exist_ok=True)
    shutil.copy(SRC + '/test.rs', OUT + '/demo_test.rs')
    shutil.copy(SRC + '/meta.json', OUT + '/meta.json')
    open(OUT + '/demo.sh', 'w').write(DEMO)
    os.chmod(OUT + '/demo.sh', 0o755)
    assert sh('git status --short', '/repo')[1] == '', 'repo dirty'
    ns = {}
    exec(open(SRC + '/edit.py').read(), ns)
    def rep(f, a, b, n=1):
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(a) == n, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    fail = None
    try:
        rc, o = sh('bash %s/demo.sh' % OUT, '/repo')
        if rc: fail = 'demo fails on the unchanged tree\n' + o
        ns['edit'](rep)
        d = sh('git diff', '/repo')[1]
        open(OUT + '/patch.diff', 'w').write(d)
        if not fail:
            rc, o = sh('bash %s/demo.sh' % OUT, '/repo')
            if rc == 0: fail = 'demo passes with the change\n' + o
            elif 'panicked' not in o and 'test result: FAILED' not in o: fail = 'demo fails oddly\n' + o
        if not fail and '--notest' not in sys.argv:
            rc, o = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed/out.json', '/repo')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open('/tmp/seed/out.json')) if os.path.exists('/tmp/seed/out.json') else {}
            names = [t for t in (base.get('stable') or base.get('passed') or base.get('tests') or [])]
            ok = set(got.get('passed', []))
            miss = [t for t in names if t not in ok]
            if rc and not ok or miss: fail = 'tests fail: %s %s' % (miss, o[-1500:])
        pid = json.load(open(OUT + '/meta.json'))['property']
        rc, o = sh('python3 /verif/check.py %s | tail -3 | cut -c1-700' % pid, '/verif')
        print('CAUGHT' if 'VIOLATION property=%s ' % pid in o else 'MISSED', ID, pid)
        print(o[-500:])
    finally:
        sh('git checkout -- .', '/repo')
    print('CONFIRMED' if not fail else 'REJECTED: ' + fail[-2500:])
main()
