"""Builds the MIR dump driver and dumps the repository's current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')


class InfraError(Exception):
    """the machinery itself could not run (says nothing about the repository)"""


class BuildError(Exception):
    """the repository does not build"""


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def walk(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git', '.cache')]
        for f in fs:
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(r, f))
    return out


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    """path of the driver binary, built if its sources changed"""
    d = os.path.join(HERE, 'driver')
    h = filehash(walk(d, {'.rs', '.toml', '.lock'}))
    out = os.path.join(CACHE, 'mirdump-' + h)
    with Lock('driver'):
        if not os.path.exists(out):
            rc, o = run(['cargo', '+nightly', 'build', '--release', '--offline'], d,
                        {'CARGO_TARGET_DIR': os.path.join(CACHE, 'driver-target')})
            if rc:
                raise InfraError('driver does not build:\n' + o[-3000:])
            shutil.copy(os.path.join(CACHE, 'driver-target', 'release', 'mirdump'), out + '.tmp')
            os.rename(out + '.tmp', out)
    return out


def repofiles():
    fs = walk(os.path.join(REPO, 'src'))
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            fs.append(p)
    return fs


def forget(tgt):
    """make cargo compile the library again (the file we want is no output cargo knows)"""
    for d in ('.fingerprint', 'build', 'deps'):
        d = os.path.join(tgt, 'debug', d)
        for f in (os.listdir(d) if os.path.isdir(d) else ()):
            if f == 'pkstl' or f.startswith(('pkstl-', 'libpkstl-')):
                q = os.path.join(d, f)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)


def dump(features='--all-features'):
    """dump of the current tree for a feature selection; returns the file"""
    drv = driver()
    h = filehash(repofiles() + [drv])
    tag = hashlib.sha256(features.encode()).hexdigest()[:8]
    out = os.path.join(CACHE, 'dump-%s-%s.json' % (tag, h))
    with Lock('dump'):
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith('dump-%s-' % tag) and time.time() - os.path.getmtime(os.path.join(CACHE, f)) > 3600:
                os.remove(os.path.join(CACHE, f))
        tgt = os.path.join(CACHE, 'dump-target')
        forget(tgt)
        rc, sr = run(['rustc', '+nightly', '--print', 'sysroot'], HERE)
        if rc:
            raise InfraError('no nightly toolchain: ' + sr)
        tmp = out + '.tmp'
        for attempt in (0, 1):
            rc, o = run(['cargo', '+nightly', 'check', '--lib', '--locked', '--offline'] + features.split(), REPO, {
                'LD_LIBRARY_PATH': sr.strip() + '/lib',
                'RUSTFLAGS': '--cap-lints warn',
                'MIRDUMP_CRATE': 'pkstl',
                'MIRDUMP_OUT': tmp,
                'RUSTC_WORKSPACE_WRAPPER': drv,
                'CARGO_TARGET_DIR': tgt,
            })
            if rc:
                raise BuildError(o[-3000:])
            if os.path.exists(tmp):
                break
            shutil.rmtree(tgt, ignore_errors=True)      # cargo took its own cached result
        if not os.path.exists(tmp):
            raise InfraError('the driver wrote no dump\n' + o[-2000:])
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    print(driver())
    print(dump(*sys.argv[1:]))
