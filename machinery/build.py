"""Builds the MIR driver and dumps the MIR of /repo's current working tree.

Everything is keyed by content: the driver by its sources, a dump by the
sources of /repo (every .rs file and the manifests) plus the driver and the
inline list, so a stale result is never used."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(VERIF, 'driver')
MIRDUMP = os.path.join(BUILD, 'driver', 'debug', 'mirdump')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    e['PATH'] = '/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTC'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree(root, exts=('.rs', '.toml', '.lock')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'build')]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def sh(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise BuildError('%s failed' % what)
    return p.stdout


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    stamp = os.path.join(BUILD, 'driver.stamp')
    d = digest(tree(DRIVER))
    if os.path.exists(MIRDUMP) and os.path.exists(stamp) and open(stamp).read() == d:
        return d
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    sh(['cargo', '+nightly', 'build', '--offline'], DRIVER, e, 'building the MIR driver')
    with open(stamp, 'w') as f:
        f.write(d)
    return d


def stage(target, witness=True):
    """A copy of the current tree under build/, optionally with one module
    added that instantiates the generic public functions and macros."""
    crate = os.path.join(BUILD, 'stage-' + target)
    if os.path.isdir(crate):
        shutil.rmtree(crate)
    os.makedirs(crate)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(crate, 'src'))
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'README.md'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), os.path.join(crate, f))
    if not os.path.exists(os.path.join(crate, 'Cargo.lock')):
        shutil.copy(os.path.join(HERE, 'repo.lock'), os.path.join(crate, 'Cargo.lock'))
    with open(os.path.join(crate, 'Cargo.toml'), 'a') as f:
        f.write('\n[workspace]\n')
    if witness:
        shutil.copy(os.path.join(HERE, 'witness.rs'), os.path.join(crate, 'src', 'verif_witness.rs'))
        with open(os.path.join(crate, 'src', 'lib.rs'), 'a') as f:
            f.write('\n#[doc(hidden)] pub mod verif_witness;\n')
    for d, ds, fs in os.walk(crate):          # never fresh for cargo
        for f in fs:
            os.utime(os.path.join(d, f))
    return crate


def dump(target='unix'):
    """-> path of the MIR dump of /repo's current tree."""
    with Lock():
        dd = driver()
        inl = os.path.join(HERE, 'inline.txt')
        srcs = tree(os.path.join(REPO, 'src')) + [os.path.join(REPO, 'Cargo.toml')]
        if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            srcs.append(os.path.join(REPO, 'Cargo.lock'))
        if os.path.exists(os.path.join(REPO, 'build.rs')):
            srcs.append(os.path.join(REPO, 'build.rs'))
        wit = [os.path.join(HERE, 'witness.rs')]
        key = hashlib.sha256((digest(srcs) + dd + digest([inl] + wit) + target).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, 'mir-%s-%s.json' % (target, key))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith('mir-%s-' % target):
                os.remove(os.path.join(BUILD, f))
        e = env()
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], VERIF, e, 'rustc sysroot').strip()
        e['LD_LIBRARY_PATH'] = sysroot + '/lib'
        tmp = out + '.tmp'
        e['MIRDUMP_OUT'] = tmp
        e['MIRDUMP_CRATE'] = 'mortal'
        e['MIRDUMP_INLINE'] = inl
        e['RUSTC_WORKSPACE_WRAPPER'] = MIRDUMP
        tgt = os.path.join(BUILD, 'target-' + target)
        e['CARGO_TARGET_DIR'] = tgt
        crate = stage(target)
        cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(crate, 'Cargo.toml')]
        sub = 'debug'
        if target == 'windows':
            cmd += ['-Zbuild-std=std,panic_abort', '--target', 'x86_64-pc-windows-msvc']
            sub = 'x86_64-pc-windows-msvc/debug'
        fp = os.path.join(tgt, sub, '.fingerprint')
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith('mortal-'):
                    shutil.rmtree(os.path.join(fp, f))
        sh(cmd, crate, e, 'compiling /repo (%s)' % target)
        if not os.path.exists(tmp):
            raise BuildError('the MIR driver wrote no dump')
        os.rename(tmp, out)
        return out


if __name__ == '__main__':
    print(dump(sys.argv[1] if len(sys.argv) > 1 else 'unix'))
