"""Extract facts from /repo's working tree with the rustc driver (cached by content)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CACHE = os.path.join(ROOT, '.cache')
REPO = os.environ.get('HSA_REPO', '/repo')


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    for k in ('RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'RUST_LOG', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sysroot():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], env=env())
    return out.strip().splitlines()[-1]


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(ROOT, 'driver', 'src', 'main.rs')
    d = os.path.join(CACHE, 'driver-' + sha([src])[:12])
    exe = os.path.join(d, 'hsa')
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        rc, out = run(['rustc', '+nightly', '--edition', '2021', '-O', '-o', tmp, src], env=env())
        if rc:
            raise RuntimeError('driver does not build:\n' + out[-3000:])
        os.rename(tmp, exe)
    return exe


def sources(repo):
    out = []
    for base, dirs, files in os.walk(os.path.join(repo, 'src')):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(base, f))
    return out


class BuildError(Exception):
    pass


def facts(feature='', repo=None):
    """-> directory holding the driver's JSON files for the current tree"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        toml = os.path.join(repo, 'Cargo.toml')
        h = hashlib.sha256((sha(sources(repo) + [toml]) + os.path.basename(os.path.dirname(exe)) + feature).encode()).hexdigest()[:20]
        out = os.path.join(CACHE, 'facts-' + h)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        # keep the cache small
        old = sorted((d for d in os.listdir(CACHE) if d.startswith('facts-')), key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-6]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = os.path.join(CACHE, 'tmp-%d' % os.getpid())
        work = os.path.join(CACHE, 'work')      # fixed path: cargo keeps the dependencies warm
        for d in (tmp, work):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        try:
            shutil.copytree(os.path.join(repo, 'src'), os.path.join(work, 'src'))
            shutil.copytree(os.path.join(repo, 'benches'), os.path.join(work, 'benches'))
            shutil.copy(toml, work)
            lock = os.path.join(repo, 'Cargo.lock')
            shutil.copy(lock if os.path.exists(lock) else os.path.join(ROOT, 'Cargo.lock.repo'), os.path.join(work, 'Cargo.lock'))
            for base, dirs, files in os.walk(os.path.join(work, 'src')):
                for f in files:
                    os.utime(os.path.join(base, f))
            e = env()
            e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
            e['HSA_OUT'] = tmp
            e['RUSTC_WORKSPACE_WRAPPER'] = exe
            e['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'target')
            e['CARGO_INCREMENTAL'] = '0'
            cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--bins'] + (['--features', feature] if feature else [])
            rc, log = run(cmd, env=e, cwd=work)
            if rc or not os.path.exists(os.path.join(tmp, 'hybridcvrp-lib.json')) or not os.path.exists(os.path.join(tmp, 'hybridcvrp-bin.json')):
                raise BuildError('the tree does not type-check:\n' + log[-3000:])
            open(os.path.join(tmp, 'ok'), 'w').close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(work, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        return out


def spec():
    """-> directory holding the driver's JSON file of the reference crate /verif/spec"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        src = os.path.join(ROOT, 'spec')
        h = hashlib.sha256((sha(sources(src) + [os.path.join(src, 'Cargo.toml')]) + os.path.basename(os.path.dirname(exe))).encode()).hexdigest()[:20]
        out = os.path.join(CACHE, 'spec-' + h)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        for d in os.listdir(CACHE):
            if d.startswith('spec-'):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = os.path.join(CACHE, 'stmp-%d' % os.getpid())
        work = os.path.join(CACHE, 'swork')
        for d in (tmp, work):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        try:
            shutil.copytree(os.path.join(src, 'src'), os.path.join(work, 'src'))
            shutil.copy(os.path.join(src, 'Cargo.toml'), work)
            shutil.copy(os.path.join(ROOT, 'Cargo.lock.repo'), os.path.join(work, 'Cargo.lock'))
            e = env()
            e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
            e['HSA_OUT'] = tmp
            e['RUSTC_WORKSPACE_WRAPPER'] = exe
            e['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'target')
            e['CARGO_INCREMENTAL'] = '0'
            rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib'], env=e, cwd=work)
            if rc or not os.path.exists(os.path.join(tmp, 'hspec-lib.json')):
                raise RuntimeError('the reference crate does not type-check:\n' + log[-5000:])
            open(os.path.join(tmp, 'ok'), 'w').close()
            os.rename(tmp, out)
        finally:
            shutil.rmtree(work, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        return out


if __name__ == '__main__':
    print(facts())
    print(spec())
    print(facts('dimacs'))
