"""Build the MIR driver and dump the program of /repo's current working tree."""
import os, subprocess, sys, hashlib, shutil, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('VERIF_BUILD') or os.path.join(HERE, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')


def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    sysroot = subprocess.check_output(['rustc', '--print', 'sysroot'], env=e, text=True).strip()
    e['LD_LIBRARY_PATH'] = sysroot + '/lib'
    return e


def sha(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def tree_hash():
    fs = []
    for top in (REPO, os.path.join(HERE, 'stubs'), os.path.join(HERE, 'tools'), os.path.join(HERE, 'driver')):
        for d, ds, ns in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules', '__pycache__'))
            for n in sorted(ns):
                if n.endswith(('.rs', '.toml', '.py', '.lock')) or 'src' in d:
                    fs.append(os.path.join(d, n))
    return sha(*fs)


def driver():
    os.makedirs(B, exist_ok=True)
    src = os.path.join(HERE, 'driver', 'main.rs')
    out = os.path.join(B, 'driver')
    key = sha(src)
    kf = out + '.key'
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    e = env()
    subprocess.run(['rustc', '--edition', '2021', '-O', src, '-o', out], env=e, cwd=B, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(kf, 'w').write(key)
    return out


def dump(force=False):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(force)


def _dump(force):
    drv = driver()
    out = os.path.join(B, 'dump')
    main = os.path.join(out, 'openid4vp.json')
    kf = os.path.join(out, 'key')
    key = tree_hash()
    if not force and os.path.exists(main) and os.path.exists(kf) and open(kf).read() == key:
        return main
    ok = _compile(drv, out, main, [])
    if not ok:
        # src/core/jwe.rs is type-checked against signatures-only josekit stubs, and the repository's own build
        # here leaves that file out: without it every other part can still be decided
        ok = _compile(drv, out, main, ['--nojwe'])
        if ok:
            open(os.path.join(out, 'nojwe'), 'w').close()
    if not ok:
        sys.stderr.write(open(os.path.join(B, 'build.log')).read()[-4000:])
        return None
    open(kf, 'w').write(key)
    return main


def _compile(drv, out, main, opts):
    work = os.path.join(B, 'work')
    subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'mirror.py'), work] + opts, check=True, stdout=subprocess.DEVNULL)
    e = env()
    tgt = os.path.join(B, 'target')
    e.update(CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER=drv, VP_DUMP_DIR=out, VP_DUMP_CRATES='openid4vp,openid4vp_frontend')
    e.pop('RUSTFLAGS', None)
    # cargo's freshness cache would skip the wrapper: the two crates are always rebuilt
    for p in ('openid4vp', 'openid4vp-frontend'):
        shutil.rmtree(os.path.join(tgt, 'debug', 'build', p), ignore_errors=True)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith('openid4vp'):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(os.path.join(B, 'build.log'), 'w') as log:
        r = subprocess.run(['cargo', 'check', '--lib', '--offline'], cwd=work, env=e, stdout=log, stderr=log)
    return not r.returncode and os.path.exists(main)


if __name__ == '__main__':
    r = dump('--force' in sys.argv)
    print(r)
    sys.exit(0 if r else 2)
