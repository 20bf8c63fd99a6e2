"""Builds the compiler driver and extracts the typed MIR of /repo's current working tree (cached by content hash)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FL_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
MAIN = ('flarch', 'flcrypto', 'flmodules', 'flnode', 'fledger', 'flsignal')
BROWSER = ('flbrowser',)


def sources(group):
    dirs = ['flarch', 'flcrypto', 'flmodules', 'flnode', 'flmacro', 'cli', 'Cargo.toml', 'Cargo.lock']
    if group == 'browser':
        dirs += ['flbrowser']
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isfile(p):
            yield p
        for r, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules', 'pkg', 'tests'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock', '.md', '.html', '.ym', '.yaml', '.yml')):
                    yield os.path.join(r, f)


def digest(group):
    h = hashlib.sha256()
    for p in list(sources(group)) + [os.path.join(VERIF, 'driver', 'src', 'main.rs'), os.path.join(VERIF, 'driver', 'Cargo.toml')]:
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    p = '/opt/vp/env.sh'
    if os.path.exists(p):
        out = subprocess.run(['bash', '-c', f'. {p} >/dev/null 2>&1; env -0'], env=e, capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode(errors='replace').split('=', 1)
                e[k] = v
    e.pop('RUSTUP_TOOLCHAIN', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(f'{what} failed:\n' + r.stderr[-6000:])
        raise SystemExit(3)
    return r.stdout


def facts_dir(group='main'):
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'cache'), exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(VERIF, 'cache', f'{group}-{digest(group)}')
        want = MAIN if group == 'main' else BROWSER
        if all(os.path.exists(os.path.join(d, c + '.json')) for c in want):
            os.utime(d)
            return d
        e = env()
        t0 = time.time()
        e1 = dict(e, CARGO_TARGET_DIR=os.path.join(TARGET, 'driver'))
        run(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(VERIF, 'driver'), e1, 'driver build')
        sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], VERIF, e, 'sysroot').strip()
        nt = os.path.join(TARGET, 'nt')
        # cargo must run the wrapper again on the workspace's crates (two layouts of the build directory).
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(nt, 'debug', sub)
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x in MAIN + BROWSER or x.rsplit('-', 1)[0] in MAIN + BROWSER:
                        shutil.rmtree(os.path.join(fp, x))
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e2 = dict(e, LD_LIBRARY_PATH=sysroot + '/lib', FL_FACTS_CRATES=','.join(want), FL_FACTS_OUT=tmp,
                  RUSTC_WORKSPACE_WRAPPER=os.path.join(TARGET, 'driver', 'debug', 'fl-facts'), CARGO_TARGET_DIR=nt,
                  CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0')
        if group == 'main':
            cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--quiet', '--lib', '--bins']
            for p in MAIN:
                cmd += ['-p', p]
            run(cmd, REPO, e2, 'extraction')
        else:
            run(['cargo', '+nightly', 'check', '--offline', '--locked', '--quiet', '--bins'],
                os.path.join(REPO, 'flbrowser'), e2, 'extraction')
        miss = [c for c in want if not os.path.exists(os.path.join(tmp, c + '.json'))]
        if miss:
            sys.stderr.write(f'no facts for {miss}\n')
            raise SystemExit(3)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        # Keep the cache small.
        c = os.path.join(VERIF, 'cache')
        ds = sorted((os.path.join(c, x) for x in os.listdir(c) if x.startswith(group + '-')), key=os.path.getmtime)
        for x in ds[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        sys.stderr.write(f'extracted {group} facts in {time.time() - t0:.1f}s\n')
        return d


if __name__ == '__main__':
    print(facts_dir(sys.argv[1] if len(sys.argv) > 1 else 'main'))
