"""Regenerates the encoding input (LLVM IR) and the native library from /repo's working tree."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.environ.get('VH_BUILD', os.path.join(ROOT, '.build'))
HARNESS = os.path.join(ROOT, 'harness')
STUBS = os.path.join(ROOT, 'stubs')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def _files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in ('target', '.git')]
            out.extend(os.path.join(d, f) for f in fs)
    return sorted(out)


def digest():
    h = hashlib.sha256()
    for f in _files(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), HARNESS, STUBS,
                    os.path.abspath(__file__)):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()


def build(quiet=True):
    """returns (path of the prepared IR, path of the native library, seconds spent)"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        dg = digest()
        ll = os.path.join(BUILD, 'h.ll')
        so = os.path.join(BUILD, 'libvharness.so')
        stamp = os.path.join(BUILD, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == dg and os.path.exists(ll) and os.path.exists(so):
            return ll, so, time.time() - t0
        if os.path.exists(stamp):
            os.remove(stamp)
        target = os.path.join(BUILD, 'target')
        env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        # cargo trusts file times; a restored working tree may carry old ones
        fp = os.path.join(target, 'release', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('corries-', 'vharness-')):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cwd = HARNESS
        if REPO != '/repo':
            # development aid: the same harness against another checkout
            cwd = os.path.join(BUILD, 'harness')
            shutil.rmtree(cwd, ignore_errors=True)
            shutil.copytree(HARNESS, cwd)
            p = os.path.join(cwd, 'Cargo.toml')
            s = open(p).read().replace('"/repo"', '"%s"' % REPO).replace('"../stubs', '"%s' % STUBS)
            open(p, 'w').write(s)
        r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir,link', '-Awarnings'],
                           cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('cargo failed:\n' + r.stdout[-6000:])
        sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        opt = os.path.join(sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
        raw = os.path.join(target, 'release', 'deps', 'vharness.ll')
        api = sorted(set(re.findall(r'^define [^@\n]*@"?(_{0,2}vh_\w+)"?\(', open(raw).read(), re.M)))
        tmp = ll + '.tmp'
        r = subprocess.run([opt, '-S', '-strip-debug',
                            '-passes=internalize,globaldce,lower-invoke,function(scalarizer),globaldce',
                            '-internalize-public-api-list=' + ','.join(api), raw, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('opt failed:\n' + r.stdout[-4000:])
        os.replace(tmp, ll)
        shutil.copy(os.path.join(target, 'release', 'deps', 'libvharness.so'), so)
        os.remove(raw)
        with open(stamp, 'w') as fh:
            fh.write(dg)
        return ll, so, time.time() - t0
    finally:
        lock.close()


def fault_lib():
    """library that injects file system faults into native runs"""
    src, so = os.path.join(STUBS, 'fault.c'), os.path.join(BUILD, 'fault.so')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so + '.tmp', src, '-ldl'], check=True)
        os.replace(so + '.tmp', so)
    return so


if __name__ == '__main__':
    print(build())
