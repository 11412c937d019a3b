"""Builds what a check needs from /repo's current working tree: the MIR driver, and the dump of the
functions reachable from the roots.  Results are cached by content under a scratch directory."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
PASSES = '-CheckAlignment,-CheckNull,-CheckEnums'


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    e['CARGO_INCREMENTAL'] = '0'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    return e


def run(cmd, cwd, extra=None, timeout=800):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode())
            h.update(open(r, 'rb').read())
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'target', '.work', '__pycache__', 'evidence', 'seeded'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def repo_hash():
    return tree_hash(REPO + '/src', REPO + '/Cargo.toml')


def lockfile(dst):
    """The crates of /verif use the dependency versions the repository was resolved with."""
    for src in (REPO + '/Cargo.lock', '/opt/vp/Cargo.lock.saved'):
        if os.path.exists(src):
            return src


def mirdump():
    src = VERIF + '/mirdump'
    h = tree_hash(src)
    out = '%s/mirdump-%s' % (WORK, h)
    exe = out + '/debug/mirdump'
    if not os.path.exists(exe):
        os.makedirs(WORK, exist_ok=True)
        rc, sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], src)
        rc, log = run(['cargo', '+nightly', 'build', '--offline'], src,
                      {'RUSTFLAGS': '-C link-args=-Wl,-rpath,%s/lib' % sysroot.strip(), 'CARGO_TARGET_DIR': out})
        if rc or not os.path.exists(exe):
            raise BuildError('MIR driver does not build:\n' + log[-4000:])
    return exe


def partial(src, extra, log):
    """A changed type can make single roots meaningless: the others are still verified (what needs a
    dropped root is undecided)."""
    lines = open(src + '/src/lib.rs').read().split('\n')
    scratch = '%s/partial-%s' % (WORK, os.path.basename(src))
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(src, scratch)
    try:
        for _ in range(6):
            bad = {int(m) - 1 for m in re.findall(r'--> src/lib\.rs:(\d+):', log)}
            bad = {n for n in bad if lines[n].lstrip().startswith('pub fn root_')}
            if not bad:
                return 1
            for n in bad:
                lines[n] = ''
            open(scratch + '/src/lib.rs', 'w').write('\n'.join(lines))
            rc, log = run(['cargo', '+nightly', 'check', '--offline'], scratch, extra)
            if not rc:
                return 0
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def dump(roots='roots'):
    """-> (dump dict, seconds)"""
    t = time.time()
    exe = mirdump()
    src = '%s/%s' % (VERIF, roots)
    key = hashlib.sha256((tree_hash(VERIF + '/mirdump', src) + repo_hash() + PASSES).encode()).hexdigest()[:16]
    out = '%s/%s-%s.json' % (WORK, roots, key)
    if not os.path.exists(out):
        tgt = '%s/target-%s' % (WORK, roots)
        for f in (src + '/src/lib.rs',):
            os.utime(f)
        tmp = out + '.%d.tmp' % os.getpid()
        extra = {
            'RUSTC_WORKSPACE_WRAPPER': exe, 'MIRDUMP_CRATE': roots, 'MIRDUMP_OUT': tmp, 'MIRDUMP_RULES': src + '/rules',
            'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebuginfo=0 -Zmir-enable-passes=' + PASSES,
            'CARGO_TARGET_DIR': tgt}
        rc, log = run(['cargo', '+nightly', 'check', '--offline'], src, extra)
        if rc or not os.path.exists(tmp):
            rc = partial(src, extra, log)
        if rc or not os.path.exists(tmp):
            raise BuildError('dump of %s failed:\n%s' % (roots, log[-6000:]))
        os.rename(tmp, out)
        old = sorted((f for f in os.listdir(WORK) if f.startswith(roots + '-') and f.endswith('.json')), key=lambda f: os.path.getmtime(os.path.join(WORK, f)))
        for f in old[:-4]:
            os.remove(os.path.join(WORK, f))
    return json.load(open(out)), time.time() - t


def harness():
    """The concrete harness, built against the current /repo."""
    src = VERIF + '/harness'
    tgt = WORK + '/target-harness'
    os.makedirs(WORK, exist_ok=True)
    # cargo's own freshness test uses time stamps; a restored older file must be seen too
    stamp = tgt + '/stamp'
    key = tree_hash(src) + repo_hash()
    if os.path.exists(stamp) and open(stamp).read() != key:
        os.utime(src + '/src/main.rs')
        for d, ds, fs in os.walk(tgt):
            for f in fs:
                if 'wot' in f and 'fingerprint' in d:
                    os.remove(os.path.join(d, f))
    rc, log = run(['cargo', 'build', '--offline', '--release'], src, {'CARGO_TARGET_DIR': tgt, 'CARGO_PROFILE_RELEASE_OPT_LEVEL': '1', 'CARGO_PROFILE_RELEASE_DEBUG': '0', 'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'true', 'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'true'}, timeout=600)
    exe = tgt + '/release/harness'
    if rc or not os.path.exists(exe):
        raise BuildError('the harness does not build:\n' + log[-6000:])
    with open(stamp, 'w') as f:
        f.write(key)
    return exe


if __name__ == '__main__':
    d, t = dump(*sys.argv[1:])
    print(len(d['fns']), 'functions', round(t, 1), 's')
