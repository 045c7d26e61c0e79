"""Builds the executor from /repo's working tree."""
import os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get('VERIF_TARGET', os.path.join(ROOT, 'target'))
HARNESS = os.path.join(ROOT, 'harness')
LINUX = 'x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


BASE = 'debug_lookup,dynload,file,stdio,threading,rand'
KINDS = {
    # name: (nightly, features of dyon, rustflags, extra args)
    'std': (False, BASE, '', []),
    'nolookup': (False, BASE.replace('debug_lookup,', ''), '', []),
    'async': (False, BASE + ',async', '', []),
    'release': (False, BASE, '', ['--release']),
    'asan': (True, BASE, '-Zsanitizer=address --cfg asan -Cdebuginfo=line-tables-only', ['--target', LINUX]),
    'asan_nolookup': (True, BASE.replace('debug_lookup,', ''), '-Zsanitizer=address --cfg asan -Cdebuginfo=line-tables-only',
                      ['--target', LINUX]),
    'msan': (True, BASE, '-Zsanitizer=memory -Cunsafe-allow-abi-mismatch=sanitizer', ['--target', LINUX, '-Zbuild-std']),
    'tsan': (True, BASE, '-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer', ['--target', LINUX, '-Zbuild-std']),
}


def build(kind, log=None):
    """Returns the path of the executable."""
    nightly, feats, flags, extra = KINDS[kind]
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    env['CARGO_NET_OFFLINE'] = 'true'
    tdir = os.path.join(TARGET, kind)
    env['CARGO_TARGET_DIR'] = tdir
    if flags:
        env['RUSTFLAGS'] = flags
    cmd = ['cargo'] + (['+nightly'] if nightly else []) + ['build', '--offline', '--no-default-features',
                                                           '--features', ','.join('dyon/' + f for f in feats.split(','))]
    cmd += extra
    t = time.time()
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode('utf-8', 'replace')[-6000:])
        raise BuildError('building %s failed' % kind)
    if log is not None:
        log['build_%s_s' % kind] = round(time.time() - t, 1)
    sub = [LINUX] if '--target' in extra else []
    return os.path.join(tdir, *sub, 'release' if '--release' in extra else 'debug', 'dyonmon')
