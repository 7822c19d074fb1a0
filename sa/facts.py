"""Builds the extractor and extracts the typed MIR of the crate in /repo's working tree."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.environ.get('SA_BUILD', os.path.join(HERE, 'build'))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def driver():
    target = os.path.join(BUILD, 'driver')
    r = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'driver'),
           env=dict(os.environ, CARGO_TARGET_DIR=target, RUSTC_WRAPPER='', RUSTFLAGS=''))
    exe = os.path.join(target, 'debug', 'sa-driver')
    if r.returncode or not os.path.exists(exe):
        sys.stderr.write(r.stderr)
        raise SystemExit(2)
    return exe


def extract(out=None):
    """-> path of the facts of the current tree.  The analysed crate is always compiled anew."""
    exe = driver()
    target = os.path.join(BUILD, 'target')
    out = out or os.path.join(BUILD, 'facts.json')
    for d in ('debug/build/rust_bit', 'debug/.fingerprint'):
        p = os.path.join(target, d)
        if d.endswith('rust_bit'):
            if os.path.isdir(p):
                shutil.rmtree(p)
        elif os.path.isdir(p):
            for x in os.listdir(p):
                if x.startswith('rust_bit'):
                    shutil.rmtree(os.path.join(p, x))
    if os.path.exists(out):
        os.remove(out)
    root = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    env = dict(os.environ, LD_LIBRARY_PATH=root + '/lib', CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=target, SA_OUT=out,
               RUSTC_WORKSPACE_WRAPPER=exe, RUSTC_WRAPPER='', RUSTFLAGS='')
    r = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--bin', 'rust_bit'], cwd=REPO, env=env)
    if not os.path.exists(out):
        r = sh(['cargo', '+nightly', 'check', '--offline'], cwd=REPO, env=env)
    if not os.path.exists(out):
        sys.stderr.write(r.stderr[-4000:])
        raise SystemExit(2)
    return out


if __name__ == '__main__':
    print(extract(*sys.argv[1:]))
