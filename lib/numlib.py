"""Compiling generated libraries (Rust, C, portable-simd) into evaluators and comparing them with references."""
import concurrent.futures, hashlib, os, re, subprocess
import numpy as np
import mpmath

import build
from common import CheckError, Stuck, Violation, VERIF

LIB = os.path.dirname(os.path.abspath(__file__))
EPS = {32: 2.0 ** -23, 64: 2.0 ** -52}
ARITY = {'atan2': 2, 'log': 2, 'powf': 2, 'powi': 2, 'hypot': 2, 'dnorm': 3, 'qnorm': 3, 'negate_on_odd': 2,
         'runif': 3, 'rnorm': 3}
# arguments that are integers
INTEGER = {'powi': (1,), 'runif': (0,), 'rnorm': (0,)}
THREADS = 8


def arity(fn):
    return ARITY.get(fn, 1)


# ------------------------------------------------------------------ reference
_ref = None


def ref_exe():
    global _ref
    if _ref is None:
        src = os.path.join(LIB, 'ref.c')
        with open(src, 'rb') as f:
            h = hashlib.sha1(f.read()).hexdigest()[:12]
        os.makedirs(build.BUILD, exist_ok=True)
        exe = os.path.join(build.BUILD, 'ref-' + h)
        if not os.path.exists(exe):
            tmp = exe + '.%d' % os.getpid()
            r = build.run(['gcc', '-O2', src, '-o', tmp, '-lquadmath', '-lm'])
            if r.returncode:
                raise CheckError('reference does not build: ' + r.stderr.decode()[-2000:])
            os.replace(tmp, exe)
        _ref = exe
    return _ref


def pieces(n):
    k = max(1, min(THREADS, n // 2000))
    cuts = [n * i // k for i in range(k + 1)]
    return list(zip(cuts, cuts[1:]))


def pump(cmd, a, width, what, timeout=300):
    """Feed the rows of a to several processes; `width` doubles come back for each."""
    def one(lo, hi):
        try:
            r = subprocess.run(cmd, input=a[lo:hi].tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Stuck('%s did not finish in %d s' % (what, timeout))
        if r.returncode or len(r.stdout) != (hi - lo) * width * 8:
            raise Stuck('%s failed with status %d: %s' % (what, r.returncode, r.stderr.decode('utf-8', 'replace')[-500:]))
        return np.frombuffer(r.stdout, dtype=np.float64).reshape(-1, width)
    with concurrent.futures.ThreadPoolExecutor(THREADS) as ex:
        return np.concatenate([f.result() for f in [ex.submit(one, *p) for p in pieces(len(a))]])


def rows(args):
    return np.ascontiguousarray(np.stack([np.asarray(x, dtype=np.float64) for x in args], axis=1))


def ref(fn, args):
    """(hi, lo) of the true value."""
    a = rows(args)
    if not len(a):
        return np.zeros(0), np.zeros(0)
    try:
        r = pump([ref_exe(), fn, str(a.shape[1])], a, 2, 'reference ' + fn)
    except Stuck as e:
        raise CheckError(str(e))
    return r[:, 0], r[:, 1]


def ref64(fn, args):
    """The value in double precision (for binary32)."""
    from scipy import special
    a = [np.asarray(x, dtype=np.float64) for x in args]
    with np.errstate(all='ignore'):
        return {
            'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan,
            'exp2': np.exp2, 'exp': np.exp, 'exp_m1': np.expm1, 'log2': np.log2, 'ln': np.log, 'log10': np.log10,
            'ln_1p': np.log1p, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'asinh': np.arcsinh,
            'acosh': np.arccosh, 'atanh': np.arctanh, 'sqrt': np.sqrt, 'cbrt': np.cbrt, 'recip': np.reciprocal,
            'round': lambda x: np.copysign(np.floor(np.abs(x) + 0.5), x), 'atan2': np.arctan2, 'hypot': np.hypot,
            'powf': np.power, 'powi': np.power,
            'log': lambda x, b: np.log(x) / np.log(b),
            'dnorm': lambda x, m, s: np.exp(-((x - m) / s) ** 2 / 2) / (s * np.sqrt(2 * np.pi)),
            'qnorm': lambda p, m, s: m + s * special.ndtri(p),
            'recip_approx': np.reciprocal, 'sqrt_approx': np.sqrt, 'cbrt_approx': np.cbrt,
        }[fn](*a)


def mp_ref(fn, args):
    """An independent reference, to confirm a violation."""
    with mpmath.workprec(400):
        a = [mpmath.mpf(float(x)) for x in args]
        f = {
            'exp2': lambda x: mpmath.mpf(2) ** x, 'exp_m1': mpmath.expm1, 'log2': lambda x: mpmath.log(x, 2),
            'ln': mpmath.log, 'ln_1p': mpmath.log1p, 'recip': lambda x: 1 / x, 'powf': mpmath.power,
            'powi': mpmath.power, 'round': lambda x: mpmath.sign(x) * mpmath.floor(abs(x) + 0.5),
            'dnorm': lambda x, m, s: mpmath.npdf(x, m, s),
            'qnorm': lambda p, m, s: m + s * mpmath.sqrt(2) * mpmath.erfinv(2 * p - 1),
            'recip_approx': lambda x: 1 / x, 'sqrt_approx': mpmath.sqrt, 'cbrt_approx': mpmath.cbrt,
        }.get(fn) or getattr(mpmath, fn)
        if fn == 'cbrt' or fn == 'cbrt_approx':
            return mpmath.sign(a[0]) * mpmath.cbrt(abs(a[0]))
        return f(*a)


# ------------------------------------------------------------------ evaluators
class Broken(Violation):
    """The library cannot be generated or compiled."""


def generate(funcs, bits, **kw):
    args = build.gen_args(funcs, bits, **kw)
    g = build.libmgen(args)
    if g.code:
        raise Broken('libmgen %s ends with status %d: %s' % (' '.join(args), g.code, g.err[-600:]))
    return g.out


RUST_CASE = '"%s" => { for r in v.chunks_exact(%d) { o.push(%s as f64) } }'


def top_level(code):
    """The code without what is inside of braces."""
    out, depth = [], 0
    for c in re.split(r'([{}])', re.sub(r'"[^"\n]*"', '""', code)):
        if c == '{':
            if depth == 0:
                out.append('{')
            depth += 1
        elif c == '}':
            depth -= 1
        elif depth == 0:
            out.append(c)
    return '\n'.join(out)


def rust_signatures(code):
    """name -> (argument types, result type) of the generated functions."""
    res = {}
    code = top_level(code)
    for m in re.finditer(r'\bfn\s+(\w+)\s*\(([^()]*)\)\s*->\s*([^{]+?)\s*\{', code):
        types = [a.split(':')[1].strip() for a in m.group(2).split(',') if ':' in a]
        res[m.group(1)] = (types, re.sub(r'\s+', '', m.group(3)))
    return res


class Evaluator:
    """A compiled library: call(fn, arrays of doubles) -> array of doubles."""

    def __init__(self, exe, what, names, bits):
        self.exe, self.what, self.names, self.bits = exe, what, names, bits
        self.scale = 1.0            # of the allowed errors
        self.prefix = ''            # of the names of tests
        self.skip = set()           # functions that the language does not have

    def call(self, fn, *args):
        if fn not in self.names:
            raise Broken('%s has no function %s' % (self.what, fn))
        a = rows(args)
        if not len(a):
            return np.zeros(0)
        return pump([self.exe, fn], a, 1, '%s of %s' % (fn, self.what))[:, 0]


MAIN_RS = '''
fn main() {
    use std::io::*;
    let mut b = vec![];
    stdin().read_to_end(&mut b).unwrap();
    let v: Vec<f64> = b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut o: Vec<f64> = vec![];
    dispatch(&std::env::args().nth(1).unwrap(), &v, &mut o);
    let w: Vec<u8> = o.iter().flat_map(|x| x.to_le_bytes()).collect();
    stdout().write_all(&w).unwrap();
}
'''


def rust_evaluator(code, bits, what):
    sigs = rust_signatures(code)
    cases, names = [], set()
    for n, (types, ret) in sigs.items():
        if any(t not in ('fty', 'ity', 'uty', 'usize', 'f32', 'f64', 'i32', 'i64', 'u32', 'u64') for t in types):
            continue
        call = '%s(%s)' % (n, ', '.join('r[%d] as %s' % (i, t) for i, t in enumerate(types)))
        if ret.startswith('('):
            for i in range(ret.count(',') + 1):
                cases.append(RUST_CASE % ('%s.%d' % (n, i), len(types), '%s.%d' % (call, i)))
                names.add('%s.%d' % (n, i))
        else:
            cases.append(RUST_CASE % (n, len(types), call))
            names.add(n)
    for m in re.finditer(r'\bconst\s+(\w+)\s*:\s*(\w+)\s*=', top_level(code)):
        cases.append(RUST_CASE % (m.group(1), 1, m.group(1)))
        names.add(m.group(1))
    d = build.scratch_dir('rs')
    src = build.write(os.path.join(d, 'main.rs'), '#![allow(warnings)]\nmod g {\n%s\npub fn dispatch(n: &str, v: &[f64], o: &mut Vec<f64>) '
                      '{ match n { %s, _ => panic!("no such function") } }\n}\nuse g::dispatch;\n%s' % (code, ',\n'.join(cases), MAIN_RS))
    exe = os.path.join(d, 'main')
    r = build.rustc(src, exe)
    if r.returncode:
        raise Broken('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    return Evaluator(exe, what, names, bits)


C_TYPES = {'float': 'float', 'double': 'double', 'int': 'int', 'long long': 'long long', 'fty': 'fty', 'ity': 'ity', 'uty': 'uty'}


def c_evaluator(code, bits, what, prefix):
    cases, names = [], set()
    for m in re.finditer(r'^\s*(?:static\s+|inline\s+)*(fty|float|double)\s+(%s)(\w+)\s*\(([^()]*)\)\s*\{' % re.escape(prefix), code, re.M):
        k = len([a for a in m.group(4).split(',') if a.strip() and a.strip() != 'void'])
        cases.append('if (!strcmp(n, "%s")) { while (fread(r, 8, %d, stdin) == %d) { double o = %s%s(%s); fwrite(&o, 8, 1, stdout); } return 0; }' % (
            m.group(3), k, k, m.group(2), m.group(3), ', '.join('r[%d]' % i for i in range(k))))
        names.add(m.group(3))
    d = build.scratch_dir('c')
    src = build.write(os.path.join(d, 'main.c'), '%s\n#include <stdio.h>\n#include <string.h>\nint main(int argc, char **argv) { const char *n = argv[1]; '
                      'double r[4];\n%s\nreturn 3; }\n' % (code, '\n'.join(cases)))
    exe = os.path.join(d, 'main')
    r = build.gcc(src, exe)
    if r.returncode:
        raise Broken('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    return Evaluator(exe, what, names, bits)


# ------------------------------------------------------------------ points
def to_bits(x, bits):
    """Round doubles to the float type."""
    x = np.asarray(x, dtype=np.float64)
    if bits == 32:
        with np.errstate(all='ignore'):
            return x.astype(np.float32).astype(np.float64)
    return x


def step(x, k, bits):
    """k floats up (or down)."""
    t, i = (np.float32, np.int32) if bits == 32 else (np.float64, np.int64)
    b = np.asarray(x, dtype=t).view(i).astype(np.int64)
    low = np.int64(-2 ** (bits - 1))
    b = np.where(b < 0, low - b, b) + k         # ordered integers
    b = np.where(b < 0, low - b, b)
    return b.astype(i).view(t).astype(np.float64)


def near(points, bits, k=8):
    p = to_bits(points, bits)
    return np.concatenate([step(p, j, bits) for j in range(-k, k + 1)])


def interval(rng, n, lo, hi, bits, special=(), tiny=None, top=None):
    """Floats of [lo, hi]: uniform, logarithmic, short, and close to special points and the ends."""
    parts = [rng.uniform(lo, hi, n)]
    m = max(abs(lo), abs(hi))
    e = np.log2(m)
    small = tiny if tiny is not None else e - 40
    if lo > 0:
        parts.append(np.exp2(rng.uniform(np.log2(lo), np.log2(hi), n // 2)))
    else:
        s = np.exp2(rng.uniform(small, e, n // 2))
        parts += [s, -s] if lo < 0 else [s]
    # short numbers
    q = max(2.0 ** -6, (hi - lo) / 2.0 ** 14)
    q = 2.0 ** np.floor(np.log2(q))
    parts.append(np.floor(rng.uniform(lo, hi, n // 4) / q) * q)
    sp = [lo, hi, 0.0, (lo + hi) / 2] + list(special)
    sp += [s for s in (0.25, 0.5, 1.0, 2.0, np.pi / 4, np.pi / 2, np.pi) for s in (s, -s)]
    parts.append(near(sp, bits, 40))
    # at all distances from the special points
    base = rng.choice(np.asarray(list(special) + [lo, hi]), n // 4)
    parts.append(base + rng.choice([-1.0, 1.0], n // 4) * np.exp2(rng.uniform(e - (22 if bits == 32 else 50), e, n // 4)))
    x = to_bits(np.concatenate(parts), bits)
    x = x[(x >= lo) & (x <= hi)]
    return x


def dedup(args):
    a = rows(args) + 0.0
    v = np.ascontiguousarray(a).view(np.int64)
    order = np.lexsort(v.T)
    s = v[order]
    keep = np.ones(len(s), dtype=bool)
    keep[1:] = np.any(s[1:] != s[:-1], axis=1)
    return [np.ascontiguousarray(c) for c in a[order[keep]].T]


def error(y, hi, lo):
    with np.errstate(all='ignore'):
        err = np.abs((y - hi) - lo)
        err = np.where(y == hi, np.abs(lo) * (np.isfinite(hi)), err)       # infinities
        err = np.where(np.isnan(y) & np.isnan(hi), 0.0, err)
        err = np.where(np.isnan(err), np.inf, err)
    return err


STATS = {}


def hexargs(args):
    return [float(a).hex() for a in args]


def check_points(ctx, ev, fn, label, args, tol, reference=None, what='', inside=None, limit=None, refname=None):
    """Compare fn of ev with the true function at the points; report the worst point, simplified.

    tol(x.., ref) is the allowed absolute error. inside(x..) keeps simplification in the domain.
    """
    name = '%s%s%d %s' % (ev.prefix, fn, ev.bits, label)
    refname = refname or fn
    if fn in ev.skip:
        return

    def measure(a):
        y = ev.call(fn, *a)
        if reference is None:
            hi, lo = ref(refname, a)
        else:
            hi, lo = reference(*a), 0.0
        with np.errstate(all='ignore'):
            t = np.broadcast_to(tol(*a, hi) * ev.scale, hi.shape)
            ratio = error(y, hi, lo) / t
            ratio = np.where(np.isnan(ratio), 0.0, ratio)       # no error, nothing allowed
        return y, hi, t, ratio

    def run(case):
        if case is not None:
            a = [np.array([float.fromhex(t)]) for t in case['args']]
        else:
            a = dedup([to_bits(x, ev.bits) for x in args])
        y, hi, t, ratio = measure(a)
        i = int(np.argmax(ratio))
        if case is None:
            ctx.batch(name, len(a[0]), len(a[0]), [{'args': hexargs([c[i] for c in a]), 'value': float(y[i]).hex(),
                                                  'true': float(hi[i]).hex(), 'error/allowed': float(ratio[i])}])
            STATS[name] = (float(ratio[i]), [float(c[i]) for c in a])
            if os.environ.get('VERIF_STATS'):
                print('%-36s worst %.3f of allowed at %s (%d points)' % (name, ratio[i], [float(c[i]) for c in a], len(a[0])))
        if ratio[i] <= 1:
            return
        p = [float(c[i]) for c in a]
        if case is None:
            p = simplify(p)
        y, hi, t, ratio = measure([np.array([v]) for v in p])
        # Where the expected value is not simply the function's, it is what the reference says.
        true = mp_ref(refname, p) if reference is None else mpmath.mpf(float(hi[0]))
        msg = '%s%d(%s) of %s is %r, expected %s: error %.4g, allowed %.4g' % (
            fn, ev.bits, ', '.join(map(repr, p)), what or ev.what, float(y[0]), mpmath.nstr(true, 20),
            float(abs(mpmath.mpf(float(y[0])) - true)) if np.isfinite(y[0]) and mpmath.isfinite(true) else float('nan'), float(t[0]))
        raise_at(ctx, name, {'args': hexargs(p)}, Violation(msg))

    def simplify(p):
        """Fewer significant bits, as long as the point stays a violation."""
        for i in range(len(p)):
            if not np.isfinite(p[i]) or p[i] == 0:
                continue
            m, e = np.frexp(p[i])
            cand = []
            for k in range(1, 54):
                for d in (0, 1):
                    c = np.ldexp((np.floor(abs(m) * 2.0 ** k) + d) / 2.0 ** k, e) * np.sign(p[i])
                    cand.append(float(c))
            c = to_bits(np.array(cand), ev.bits)
            a = [np.full(len(c), v) for v in p]
            a[i] = c
            ok = np.isfinite(c)
            if inside is not None:
                ok &= inside(*a)
            if i in INTEGER.get(fn, ()):
                ok &= c == np.floor(c)
            if not ok.any():
                continue
            a = [v[ok] for v in a]
            r = measure(a)[3]
            good = np.nonzero(r > 1)[0]
            if len(good):
                p[i] = float(a[i][good[0]])
        return p

    ctx.numeric(name, run)


def raise_at(ctx, name, case, v):
    ctx.report(name, case, v)


def agree(ctx, name, ev_a, ev_b, fn, args, allowed=None):
    """Two evaluators give the same floats (or differ at most by allowed(a, b))."""
    def run(case):
        a = [np.array([float.fromhex(t)]) for t in case['args']] if case is not None else dedup(
            [to_bits(x, ev_a.bits) for x in args])
        x, y = ev_a.call(fn, *a), ev_b.call(fn, *a)
        with np.errstate(all='ignore'):
            same = (x.view(np.int64) == y.view(np.int64)) | (np.isnan(x) & np.isnan(y))
            if allowed is not None:
                same |= np.abs(x - y) <= allowed(*a, x, y)
                same |= x == y
        if case is None:
            ctx.batch(name, len(x), len(x), [{'args': hexargs([c[len(x) // 2] for c in a]), 'value': float(x[len(x) // 2]).hex()}])
        bad = np.nonzero(~same)[0]
        if len(bad):
            # the shortest numbers first
            k = min(bad, key=lambda i: sum(len(float(c[i]).hex()) for c in a))
            p = [float(c[k]) for c in a]
            raise_at(ctx, name, {'args': hexargs(p)}, Violation('%s(%s) is %r by %s and %r by %s' % (
                fn, ', '.join(map(repr, p)), float(x[k]), ev_a.what, float(y[k]), ev_b.what)))
    ctx.numeric(name, run)


SIMD_SIG = re.compile(r'fn\s+(\w+)\s*(\(\s*self\s*(?:,[^()]*)?\)\s*->\s*Self)')


def simd_evaluator(code, bits, what, lanes=4):
    """The methods of a generated portable-simd file, applied to vectors of `lanes` consecutive points.

    lib/simd_shim.rs stands in for the portable-simd crate (element by element, the same names)."""
    sigs = SIMD_SIG.findall(code)
    cases, names = [], set()
    f = 'f%d' % bits
    for n, sig in sigs:
        types = re.findall(r':\s*(Self(?:\s*::\s*\w+)?)', sig)
        args = []
        for i, t in enumerate(['Self'] + types, 0):
            e = {'Self': f, 'Self::IntType': 'i%d' % bits, 'Self::UintType': 'u%d' % bits}[re.sub(r'\s', '', t)]
            args.append('simd::Simd::<%s, L>(std::array::from_fn(|j| v[(i + j).min(n - 1) * %d + %d] as %s))' % (e, len(types) + 1, i, e))
        cases.append('"%s" => { let n = v.len() / %d; let mut i = 0; while i < n { let r = StdLibm::%s(%s); for j in 0..L.min(n - i) { o.push(r.0[j] as f64) } i += L; } }' % (
            n, len(types) + 1, n, ', '.join(args)))
        names.add(n)
    with open(os.path.join(LIB, 'simd_shim.rs')) as fh:
        shim = fh.read()
    d = build.scratch_dir('simd')
    build.write(os.path.join(d, 'gen.rs'), code)
    src = build.write(os.path.join(d, 'main.rs'), '#![allow(warnings)]\n%s\npub trait StdLibm: Sized { type IntType; type UintType; %s }\n'
                      '#[path="gen.rs"] mod g;\nconst L: usize = %d;\nfn dispatch(n: &str, v: &[f64], o: &mut Vec<f64>) { match n { %s, _ => panic!("no such function") } }\n%s' % (
                          shim, ' '.join('fn %s %s;' % s for s in sigs), lanes, ',\n'.join(cases), MAIN_RS))
    exe = os.path.join(d, 'main')
    r = build.rustc(src, exe)
    if r.returncode:
        raise Broken('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    return Evaluator(exe, what, names, bits)
