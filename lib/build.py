"""Building the code under test from /repo's working tree, outside of /repo."""
import json, fcntl, hashlib, os, shutil, subprocess, tempfile, atexit

from common import VERIF, REPO, CheckError, Stuck
import driver

BUILD = os.path.join(VERIF, 'build')


def env():
    e = dict(os.environ)
    # Not the native CPU flags of the environment: a fixed code generation.
    e['RUSTFLAGS'] = ''
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('CARGO_TARGET_DIR', None)
    return e


def run(cmd, **kw):
    kw.setdefault('cwd', VERIF)
    kw.setdefault('env', env())
    kw.setdefault('timeout', 600)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError('no answer within %d s: %s' % (kw['timeout'], ' '.join(map(str, cmd))[:500]))


def _cargo(manifest, target):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, os.path.basename(target) + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', manifest, '--target-dir', target])
    if r.returncode != 0:
        raise CheckError('cargo build of %s failed:\n%s' % (manifest, r.stderr.decode()[-4000:]))


_built = {}


def driver_exe():
    if 'driver' not in _built:
        t = os.path.join(BUILD, 'driver')
        _cargo(os.path.join(VERIF, 'driver', 'Cargo.toml'), t)
        _built['driver'] = os.path.join(t, 'debug', 'verif-driver')
    return _built['driver']


def doctor_syn_rlib():
    """The library the driver is linked with."""
    driver_exe()
    r = run(['cargo', 'build', '--offline', '--quiet', '--message-format=json', '--manifest-path', os.path.join(VERIF, 'driver', 'Cargo.toml'),
             '--target-dir', os.path.join(BUILD, 'driver')])
    for l in r.stdout.decode('utf-8', 'replace').splitlines():
        m = json.loads(l) if l.startswith('{') else {}
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('doctor-syn', 'doctor_syn'):
            return next(f for f in m['filenames'] if f.endswith('.rlib'))
    raise CheckError('no library doctor_syn: ' + r.stderr.decode()[:1000])


def get_driver(timeout=120):
    return driver.Driver(driver_exe(), timeout)


def libmgen_exe():
    if 'libmgen' not in _built:
        t = os.path.join(BUILD, 'libmgen')
        # --locked is not needed: the workspace of /repo has its own lock file.
        e = env()
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'libmgen.lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            e['CARGO_PROFILE_DEV_OPT_LEVEL'] = '2'
            e['CARGO_PROFILE_DEV_DEBUG'] = 'false'
            r = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path',
                     os.path.join(REPO, 'libmgen', 'Cargo.toml'), '--bin', 'libmgen', '--target-dir', t], env=e)
        if r.returncode != 0:
            raise CheckError('cargo build of libmgen failed:\n' + r.stderr.decode()[-4000:])
        _built['libmgen'] = os.path.join(t, 'debug', 'libmgen')
    return _built['libmgen']


_scratch = None


def scratch():
    """A directory of this run, removed when it ends."""
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, 'scratch')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run', dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def scratch_dir(prefix='d'):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch())


class Gen:
    """One run of libmgen."""

    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


def libmgen(args, cwd=None, timeout=240):
    try:
        r = subprocess.run([libmgen_exe()] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=cwd or scratch(), env=env(), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Stuck('libmgen %r did not finish in %ss' % (args, timeout))
    return Gen(r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace'))


def gen_args(funcs, bits, exclude='', number_type='decimal', language='rust', extra=()):
    a = ['-f', ','.join(funcs) if not isinstance(funcs, str) else funcs, '--num-bits', str(bits),
         '--number-type', number_type, '--language', language]
    if exclude:
        a += ['-x', exclude if isinstance(exclude, str) else ','.join(exclude)]
    return a + list(extra)


def rustc(src_path, exe, opt=True, test=False, emit=None, extra=()):
    cmd = ['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'overflow-checks=off', '-C', 'debug-assertions=off',
           '-C', 'debuginfo=0', src_path, '-o', exe]
    if opt:
        cmd += ['-C', 'opt-level=1']
    if test:
        cmd += ['--test']
    if emit:
        cmd += ['--emit', emit]
    cmd += list(extra)
    return run(cmd)


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)
    return path


def gcc(src_path, exe, extra=()):
    return run(['gcc', '-O1', '-std=gnu11', '-ffp-contract=off', src_path, '-o', exe] + list(extra) + ['-lm'])
