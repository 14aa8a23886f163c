"""libmgen as a whole: any selection, both languages, the command line, the generated tests and constants."""
import concurrent.futures, os, re, shutil, subprocess
import numpy as np
import mpmath
from hypothesis import strategies as st

import build
import numlib as N
from common import CheckError, Stuck, Violation

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


TYPES = ['fty', 'uty', 'ity']
CONSTS = ('LOG2_SHIFT LOG2_OFFSET NAN INFINITY MIN_POSITIVE ONE_MASK ONE_BITS EXP2_ONE EXP2_SCALE EXP2_MIN EXP2_MAX ONE_THIRD TWO_THIRDS PI '
          'PI_BY_2 TAN_PI_BY_8 PI_BY_8 LOG2_E RECIP_LOG2_E RECIP_LOG2_10 RECIP_PI RECIP_2PI SQRT_RECIP_2PI').split()
FUNCS = ('round negate_on_odd recip_approx sqrt_approx cbrt_approx nextafter sinh cosh tanh asinh acosh atanh asin acos atan atan2 exp2 exp exp_m1 '
         'log2 ln_1p ln log10 log powf powi sqrt cbrt recip hypot runif dnorm qnorm rnorm sin cos tan sin_cos').split()
EMPTY = ['pnorm']
GROUPS = {'invtrig': 'asin acos atan atan2', 'trig': 'sin cos tan asin acos atan atan2', 'invhyperbolic': 'asinh acosh atanh',
          'hyperbolic': 'sinh cosh tanh asinh acosh atanh', 'logexp': 'exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi',
          'recip_sqrt': 'recip sqrt cbrt', 'normal': 'rnorm dnorm qnorm', 'stats': 'rnorm dnorm qnorm'}
GROUPS['libm'] = ' '.join([GROUPS['logexp'], GROUPS['trig'], GROUPS['hyperbolic'], GROUPS['recip_sqrt']])
GROUPS['all'] = GROUPS['stats'] + ' ' + GROUPS['libm']
# What the language has no way to say (tuples, lanes of indices).
# Known findings of C21: nothing compiles of selections with these.
NOT_IN = {'rust': set(), 'c': {'sin_cos'}, 'portable-simd': {'sin_cos', 'runif', 'rnorm'}}


def members(names):
    out = set()
    for n in names:
        out |= set(GROUPS[n].split()) if n in GROUPS else {n}
    return out


def items(text, c=False):
    """The top level items of generated code, in order: [(kind, name, text)]."""
    out, depth, cur = [], 0, []
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[{}();\[\]]|#include\s*<[^>]*>|[^\s{}();\[\]"#]+|#|\s+', text)
    for t in toks:
        if t.startswith('#include'):
            continue
        cur.append(t)
        if t in '({[':
            depth += 1
        elif t in ')}]' and t:
            depth -= 1
        if depth == 0 and t in (';', '}'):
            s = ' '.join(''.join(cur).split())
            cur = []
            if s == ';' or not s:
                continue
            out.append((*name_of(s, c), s))
    rest = ' '.join(''.join(cur).split())
    if rest:
        out.append(('rest', '', rest))
    return out


def name_of(s, c):
    if not c:
        m = re.search(r'\b(fn|const|type|use|impl)\s+(\w+)', s)
        return (m.group(1), m.group(2)) if m else ('?', s[:40])
    if s.startswith('typedef'):
        return 'type', re.search(r'(\w+)\s*;', s).group(1)
    m = re.match(r'(?:static\s+)?const\s+\w+\s+(\w+)', s)
    if m:
        return 'const', m.group(1)
    m = re.match(r'[\w ]+?\b(\w+)\s*\(', s)
    if m:
        return ('prototype' if s.endswith(';') and '{' not in s else 'fn'), m.group(1)
    return '?', s[:40]


def gen(args, **kw):
    g = build.libmgen(args, **kw)
    if g.code:
        raise Violation('libmgen %s ends with status %d: %s' % (' '.join(args), g.code, g.err[-1500:]))
    return g


@st.composite
def selections(draw, lang, big=0.15):
    pool = [n for n in FUNCS + CONSTS + TYPES + EMPTY + list(GROUPS) if not (members([n]) & NOT_IN[lang])]
    small = [n for n in pool if n not in ('libm', 'all', 'stats', 'normal')]
    names = draw(st.lists(st.sampled_from(small), min_size=1, max_size=5))
    if draw(st.integers(0, 19)) < 20 * big:
        names.insert(draw(st.integers(0, len(names))), draw(st.sampled_from([n for n in ('libm', 'all', 'stats') if n in pool] or ['libm'])))
    return names


bits_st = st.sampled_from([32, 64])
number_st = st.sampled_from(['decimal', 'hex'])


def compile_check(lang, code, what):
    d = build.scratch_dir('k')
    try:
        if lang == 'rust':
            r = build.rustc(build.write(os.path.join(d, 'g.rs'), code), os.path.join(d, 'g'), opt=False, emit='metadata', extra=['--crate-type', 'lib'])
        elif lang == 'c':
            src = build.write(os.path.join(d, 'g.c'), code)
            r = build.run(['gcc', '-std=gnu11', '-Werror=implicit-function-declaration', '-fsyntax-only', src])
        else:
            # another module with the real trait cannot be had offline: the stand-in shim
            sigs = N.SIMD_SIG.findall(code)
            with open(os.path.join(N.LIB, 'simd_shim.rs')) as f:
                shim = f.read()
            build.write(os.path.join(d, 'gen.rs'), code)
            src = build.write(os.path.join(d, 'g.rs'), '#![allow(warnings)]\n%s\npub trait StdLibm: Sized { type IntType; type UintType; %s }\n#[path="gen.rs"] mod g;\n' % (
                shim, ' '.join('fn %s %s;' % s for s in sigs)))
            r = build.rustc(src, os.path.join(d, 'g'), opt=False, emit='metadata', extra=['--crate-type', 'lib'])
        if r.returncode:
            raise Violation('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    finally:
        shutil.rmtree(d, True)


def defined(lang, code, prefix):
    if lang == 'rust':
        return {n for _, n, _ in items(code)}
    if lang == 'c':
        return {n[len(prefix):] if k == 'fn' and n.startswith(prefix) else n for k, n, _ in items(code, True) if k != 'prototype'}
    return {n for n, _ in N.SIMD_SIG.findall(code)}


@check('C21')
def c21(ctx):
    ctx.rule('Random lists of functions, constants, types and groups (duplicates included), 32 and 64 bits, decimal and hex, Rust, C and '
             'portable-simd: the output is compiled on its own and must define everything that was asked for. Non-trivial: at least one function.')

    def run(lang):
        def one(case):
            names, bits, number = case
            ctx.case('compiles ' + lang, case, bool(members(names) & set(FUNCS)), '%d %s' % (bits, number))
            args = build.gen_args(names, bits, number_type=number, language=lang)
            g = gen(args)
            compile_check(lang, g.out, 'libmgen ' + ' '.join(args))
            want = members(names) - set(EMPTY)
            if lang == 'portable-simd':
                want &= set(FUNCS)
            elif lang == 'c':
                want -= {'NAN', 'INFINITY'}         # those of math.h
            have = defined(lang, g.out, 'ds%d_' % bits)
            missing = want - have
            if missing:
                raise Violation('libmgen %s does not define %s' % (' '.join(args), sorted(missing)))
            # A known finding, so reported after everything else.
            if set(names) & {'pnorm', 'normal', 'stats', 'all'} and 'pnorm' not in have:
                raise Violation('libmgen %s does not define pnorm' % ' '.join(args), 'pnorm generates no code')
        return one

    def finding(case):
        lang, name, bits = case
        ctx.case('without code', case)
        g = gen(build.gen_args([name], bits, language=lang))
        try:
            compile_check(lang, g.out, 'libmgen -f %s --language %s' % (name, lang))
        except Violation as v:
            raise Violation(v.msg, '%s of %s does not compile' % (lang, name))
    ctx.fixed('without code', [(lang, n, b) for lang in NOT_IN for n in sorted(NOT_IN[lang]) for b in (32, 64)], finding)
    ctx.fixed('compiles rust', [(['pnorm'], b, t) for b in (32, 64) for t in ('decimal', 'hex')], run('rust'))
    for lang, n in (('rust', ctx.n(25, 400)), ('c', ctx.n(15, 250)), ('portable-simd', ctx.n(12, 200))):
        ctx.prop('compiles ' + lang, st.tuples(selections(lang), bits_st, number_st), run(lang), n, each=2)
    # Every single name on its own.
    rng = np.random.default_rng(ctx.seed_for('single'))
    for lang in ('rust', 'c', 'portable-simd'):
        pool = [n for n in FUNCS + CONSTS + TYPES + list(GROUPS) if not (members([n]) & NOT_IN[lang])]
        cases = [([n], b, t) for n in pool for b in (32, 64) for t in ('decimal', 'hex')]
        if ctx.tier == 'quick':
            cases = [cases[i] for i in rng.permutation(len(cases))[:24]]
        one = run(lang)
        if ctx.replaying is None:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda c: guard(one, c), cases))
            for c, v in zip(cases, res):
                if v is not None:
                    ctx.report('compiles ' + lang, c, v)


def guard(f, c):
    try:
        f(c)
    except Violation as v:
        return v
    except Stuck as s:
        return Violation(str(s))
    return None


# ------------------------------------------------------------------ selections
@check('C22')
def c22(ctx):
    ctx.rule('Random selections with groups, repeated names, permutations, exclusions and -o. Relations: the same output twice, for any order '
             'and repetition of the names; no item twice; the items of a union are the union of the items; an item has the same text in every '
             'selection; excluded names are absent and change nothing else. Non-trivial: at least two names or an exclusion.')
    whole = {}

    pool = concurrent.futures.ThreadPoolExecutor(8)
    ahead = {}

    def start(args):
        ahead[tuple(args)] = pool.submit(gen, args)
        return args

    def out_of(args):
        f = ahead.pop(tuple(args), None)
        return (f.result() if f else gen(args)).out

    def lib_items(args, c):
        out = items(out_of(args), c)
        seen = set()
        for k, n, t in out:
            if (k, n) in seen:
                raise Violation('libmgen %s defines %s %s twice' % (' '.join(args), k, n))
            seen.add((k, n))
        return {(k, n): t for k, n, t in out}

    def one(case):
        names, other, perm, dups, exclude, bits, number, lang = case
        c = lang == 'c'
        ctx.case('selection', case, len(set(names)) > 1 or bool(exclude), '%s %d %s' % (lang, bits, number))
        shuffled = list(names)
        for i, j in perm:
            i, j = i % len(shuffled), j % len(shuffled)
            shuffled[i], shuffled[j] = shuffled[j], shuffled[i]
        shuffled += [shuffled[i % len(shuffled)] for i in dups]
        opt = dict(number_type=number, language=lang)
        key = (bits, number, lang)
        args, args_s, args_b, args_u = [start(build.gen_args(n, bits, **opt)) for n in (names, shuffled, other, names + other)]
        args_e = start(build.gen_args(names, bits, exclude=exclude, **opt)) if exclude else None
        again = pool.submit(gen, args)
        args_w = start(build.gen_args('all,hypot,nextafter,negate_on_odd', bits, exclude=sorted(NOT_IN[lang]), **opt)) if key not in whole else None
        a = lib_items(args, c)
        # Order and repetition.
        first = again.result().out
        if out_of(args_s) != first:
            raise Violation('-f %s and -f %s give different outputs' % (','.join(names), ','.join(shuffled)))
        # Union.
        b = lib_items(args_b, c)
        u = lib_items(args_u, c)
        if set(u) != set(a) | set(b):
            raise Violation('-f %s defines %s; the two parts define %s' % (
                ','.join(names + other), sorted(set(u) - set(a) - set(b)) or 'less', sorted((set(a) | set(b)) - set(u)) or 'the rest'))
        for part in (a, b):
            for k in part:
                if part[k] != u[k]:
                    raise Violation('%s %s differs between -f %s and a part of it:\n%s\n%s' % (k + (','.join(names + other), u[k], part[k])))
        # The text in a larger library.
        if key not in whole:
            whole[key] = lib_items(args_w, c)
        for k in a:
            if k in whole[key] and whole[key][k] != a[k]:
                raise Violation('%s %s differs between -f all and -f %s:\n%s\n%s' % (k + (','.join(names), whole[key][k], a[k])))
        # Exclusion.
        if exclude:
            e = lib_items(args_e, c)
            p = 'ds%d_' % bits
            for k in e:
                if k not in a or a[k] != e[k]:
                    raise Violation('-f %s -x %s defines %s %s as %s, without -x %s' % (','.join(names), ','.join(exclude), *k, e[k], a.get(k)))
                if k[1] in exclude or (c and k[1][len(p):] in exclude and k[1].startswith(p)):
                    raise Violation('-f %s -x %s defines %s' % (','.join(names), ','.join(exclude), k[1]))
            # what was asked for by name and is not excluded stays
            for n in set(names) - set(exclude) - set(GROUPS):
                for k in a:
                    if k[1] in (n, p + n) and k not in e:
                        raise Violation('-f %s -x %s loses %s' % (','.join(names), ','.join(exclude), k[1]))

    def cases(lang):
        pool = FUNCS + CONSTS + TYPES
        return st.tuples(selections(lang, 0.1), selections(lang, 0.05), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=6),
                         st.lists(st.integers(0, 9), max_size=3), st.lists(st.sampled_from(pool), max_size=3, unique=True), bits_st, number_st, st.just(lang))
    ctx.prop('selection', st.one_of(cases('rust'), cases('rust'), cases('c')), one, ctx.n(30, 500), workers=1)

    def written(case):
        names, bits, lang, old = case
        ctx.case('output file', case, True, lang)
        d = build.scratch_dir('o')
        path = os.path.join(d, 'out file.txt')
        if old:
            build.write(path, 'x\n' * old)
        args = build.gen_args(names, bits, language=lang)
        g = gen(args)
        f = gen(args + ['-o', path])
        if f.out:
            raise Violation('libmgen -o prints %r' % f.out[:200])
        if not os.path.exists(path):
            raise Violation('libmgen %s -o writes no file' % ' '.join(args))
        with open(path, newline='') as fh:
            text = fh.read()
        shutil.rmtree(d, True)
        if text != g.out:
            raise Violation('libmgen %s: -o writes something else than what is printed without it' % ' '.join(args))
    ctx.prop('output file', st.sampled_from(['rust', 'c', 'portable-simd']).flatmap(lambda l: st.tuples(selections(l, 0.05), bits_st, st.just(l), st.sampled_from([0, 1, 500000]))),
             written, ctx.n(10, 100))


# ------------------------------------------------------------------ hex and decimal
@check('C23')
def c23(ctx):
    ctx.rule('Every function of a library generated with hex literals against the one with decimal literals, at points of all magnitudes, '
             'signs and special values, and every constant: the same bits. Random selections besides the whole library. Every distinct point counts.')
    sels = [('all', 'hypot', 'nextafter', 'negate_on_odd', 'sin_cos')]
    rng = np.random.default_rng(ctx.seed_for('selections'))
    for _ in range(ctx.n(2, 20)):
        sels.append(tuple(sorted(rng.choice([f for f in FUNCS if f not in ('rnorm', 'qnorm')] + CONSTS, 6, replace=False))))
    for bits in (32, 64):
        for si, sel in enumerate(sels):
            try:
                dec, hexa = [N.rust_evaluator(N.generate(sel, bits, number_type=t), bits, '%s -f %s --num-bits %d' % (t, ','.join(sel), bits)) for t in ('decimal', 'hex')]
            except N.Broken as v:
                ctx.report('build', {'selection': sel, 'bits': bits}, v)
            if dec.names != hexa.names:
                ctx.report('names', {'selection': sel, 'bits': bits}, Violation('hex output defines other names: %s' % sorted(dec.names ^ hexa.names)))
            n = ctx.n(8000, 300000) if si == 0 else 2000
            x = np.concatenate([rng.uniform(-1, 1, n), rng.normal(size=n) * 5, np.exp2(rng.uniform(-100, 100, n)) * rng.choice([-1, 1], n)])
            sp = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 0.5, 2.0])
            for fn in sorted(dec.names):
                k = N.arity(fn.split('.')[0])
                if fn in CONSTS:
                    a = [np.zeros(1)]
                elif fn in ('runif', 'rnorm'):
                    i = rng.integers(0, 2 ** 40 if bits == 64 else 2 ** 24, n).astype(float)
                    a = [i, rng.uniform(-1, 1, n), rng.uniform(1, 2, n)]
                elif k == 1:
                    a = [np.concatenate([x, sp])]
                elif k == 2:
                    y = rng.permutation(x)
                    if fn == 'powi':
                        y = rng.integers(-60, 60, len(x)).astype(float)
                    a = [x, y] if fn != 'negate_on_odd' else [rng.integers(-1000, 1000, len(x)).astype(float), x]
                else:
                    a = [np.abs(x) % 1 if fn == 'qnorm' else x, rng.permutation(x), np.abs(rng.permutation(x)) + 1e-3]
                N.agree(ctx, '%s%d in %d' % (fn, bits, si), dec, hexa, fn, a)


# ------------------------------------------------------------------ constants
def constant_values(bits):
    mp = mpmath
    with mp.workprec(300):
        pi = +mp.pi
        shift = 23 if bits == 32 else 52
        off = 127 if bits == 32 else 1023
        return {
            'PI': pi, 'PI_BY_2': pi / 2, 'PI_BY_8': pi / 8, 'TAN_PI_BY_8': mp.tan(pi / 8), 'LOG2_E': 1 / mp.log(2), 'RECIP_LOG2_E': mp.log(2),
            'RECIP_LOG2_10': mp.log(2) / mp.log(10), 'RECIP_PI': 1 / pi, 'RECIP_2PI': 1 / (2 * pi), 'SQRT_RECIP_2PI': 1 / mp.sqrt(2 * pi),
            'ONE_THIRD': mp.mpf(1) / 3, 'TWO_THIRDS': mp.mpf(2) / 3, 'MIN_POSITIVE': mp.mpf(2) ** (1 - off), 'NAN': mp.nan, 'INFINITY': mp.inf,
            'LOG2_SHIFT': mp.mpf(shift), 'LOG2_OFFSET': mp.mpf(off), 'ONE_MASK': mp.mpf(2) ** shift - 1, 'ONE_BITS': mp.mpf(off) * 2 ** shift,
            'EXP2_ONE': mp.mpf(off) * 2 ** shift, 'EXP2_SCALE': mp.mpf(2) ** shift, 'EXP2_MIN': -mp.mpf(off), 'EXP2_MAX': mp.mpf(off),
        }


def nearest(v, bits):
    """The nearest float, as a double."""
    if not mpmath.isfinite(v):
        return float(v)
    with mpmath.workprec(24 if bits == 32 else 53):
        return float(+v)


def c_constants(code, bits, prefix):
    names = [n for k, n, _ in items(code, True) if k == 'const']
    d = build.scratch_dir('cc')
    body = ''.join('{ double o = %s; printf("%s %%a\\n", o); }\n' % (n, n) for n in names)
    src = build.write(os.path.join(d, 'm.c'), '%s\n#include <stdio.h>\nint main(void) {\n%s return 0; }\n' % (code, body))
    r = build.gcc(src, os.path.join(d, 'm'))
    if r.returncode:
        raise Violation('C constants do not compile: ' + r.stderr.decode()[:1000])
    r = build.run([os.path.join(d, 'm')])
    shutil.rmtree(d, True)
    return {a: float.fromhex(b) for a, b in (l.split() for l in r.stdout.decode().splitlines())}


@check('C34')
def c34(ctx):
    ctx.rule('Random selections of constants together with functions, 32 and 64 bits, decimal and hex, Rust and C: every constant is the float '
             'nearest to its mathematical value, or the exact integer. Non-trivial: at least one constant is compared.')
    true = {b: constant_values(b) for b in (32, 64)}

    def one(case):
        consts, extra, bits, number, lang = case
        names = consts + extra
        g = gen(build.gen_args(names, bits, number_type=number, language=lang))
        if lang == 'rust':
            ev = N.rust_evaluator(g.out, bits, '-f ' + ','.join(names))
            got = {n: float(ev.call(n, np.zeros(1))[0]) for n in ev.names if n in true[bits]}
        else:
            got = {k: v for k, v in c_constants(g.out, bits, 'ds%d_' % bits).items() if k in true[bits]}
        ctx.case('value', case, bool(got), '%s %d %s' % (lang, bits, number))
        missing = set(consts) - set(got) - ({'NAN', 'INFINITY'} if lang == 'c' else set())
        if missing:
            raise Violation('constants %s are missing from the output' % sorted(missing))
        for n, v in sorted(got.items()):
            want = nearest(true[bits][n], bits)
            if not (v == want or (v != v and want != want)):
                raise Violation('%s of %d bits in %s (%s) is %r, the nearest float is %r' % (n, bits, lang, number, v, want))
    strat = st.tuples(st.lists(st.sampled_from(CONSTS), min_size=1, max_size=8, unique=True),
                      st.lists(st.sampled_from([f for f in FUNCS if f not in ('runif', 'rnorm', 'qnorm', 'sin_cos')]), max_size=2), bits_st, number_st,
                      st.sampled_from(['rust', 'c']))
    for lang in ('rust', 'c'):
        for bits in (32, 64):
            for number in ('decimal', 'hex'):
                ctx.fixed('value', [(CONSTS, [], bits, number, lang)], one)
    ctx.prop('value', strat, one, ctx.n(16, 300))


# ------------------------------------------------------------------ generated tests
# Of the test: (function, further arguments, from, to, limit, rows). The ends are decimal numbers or fractions (n) of pi.
def true_of(name, x):
    f = {'exp2': lambda x: mpmath.mpf(2) ** x, 'exp_m1': mpmath.expm1, 'log2': lambda x: mpmath.log(x, 2), 'ln': mpmath.log,
         'ln_1p': mpmath.log1p, 'log': mpmath.log10, 'dnorm': mpmath.npdf, 'nextafter': lambda x: x,
         'qnorm': lambda x: mpmath.sqrt(2) * mpmath.erfinv(2 * x - 1)}.get(name) or getattr(mpmath, name)
    return f(x)


def end_of(e):
    return mpmath.pi / e[1] * (1 if e[0] == '+' else -1) if isinstance(e, tuple) else mpmath.mpf(e)


TESTS = {
    'test_nextafter': ('nextafter', (), 0, 1, 1, 237),
    'test_asin': ('asin', (), -0.5, 0.5, 2, 1024), 'test_asin2': ('asin', (), -1, 1, 6, 1024),
    'test_acos': ('acos', (), -1, 1, 6, 1024), 'test_acos2': ('acos', (), -0.5, 0.5, 3, 1024),
    'test_exp2_1': ('exp2', (), -1, 0, 1, 237), 'test_exp2_2': ('exp2', (), 0, 1, 2, 237),
    'test_exp_1': ('exp', (), -1, 0, 1, 237), 'test_exp_2': ('exp', (), 0, 1, 4, 237), 'test_exp_3': ('exp', (), 1, 2, 16, 237),
    'test_exp_m1_1': ('exp_m1', (), -1, 0, 1, 237), 'test_exp_m1_2': ('exp_m1', (), 0, 1, 4, 237),
    'test_log2_1': ('log2', (), '0.7', 1, 1.5, 237), 'test_log2_2': ('log2', (), 1, 2, 2, 237),
    'test_ln_1p_1': ('ln_1p', (), 1, 2, 2, 237),
    'test_ln_1': ('ln', (), '0.7', 1, 1.5, 237), 'test_ln_2': ('ln', (), 1, 2, 2, 237),
    'test_log10_1': ('log10', (), '0.1', 1, 1.5, 237), 'test_log10_2': ('log10', (), 1, 10, 2, 237),
    'test_log_1': ('log', (10.0,), '0.1', 1, 1.5, 237), 'test_log_2': ('log', (10.0,), 1, 10, 2, 237),
    'test_dnorm_1': ('dnorm', (0.0, 1.0), -1, 1, 1, 237), 'test_qnorm_1': ('qnorm', (0.0, 1.0), '0.0001', '0.999', 1e6, 237),
    'test_sin': ('sin', (), ('-', 1), ('+', 1), 9, 1024), 'test_sini': ('sin', (), -1, 1, 2, 1024),
    'test_sin2': ('sin', (), ('-', 2), ('+', 2), 3, 1024), 'test_sin3': ('sin', (), ('-', 4), ('+', 4), 2, 1024),
    'test_cos': ('cos', (), ('-', 1), ('+', 1), (6, 8), 237), 'test_cos2': ('cos', (), ('-', 2), ('+', 2), 2, 237),
    'test_cos3': ('cos', (), ('-', 4), ('+', 4), 1, 237),
    'test_tan': ('tan', (), '-0.7', '0.7', 2, 237), 'test_tan2': ('tan', (), '-1.1', '1.1', 6, 237),
}
HISTOGRAMS = {'test_runif': 'runif', 'test_rnorm': 'rnorm'}


def tests_in(code):
    """name -> text of each generated test."""
    return {n: t for k, n, t in items(code) if k == 'fn' and re.match(r'# ?\[ ?test ?\]', t)}


def rows_of(text, what):
    m = re.search(r'accurate_values[^=]*= ?& ?\[(.*?)\] ?;', text)
    if not m:
        raise Violation('%s has no table' % what)
    body = m.group(1).replace(' ', '')
    rows = re.findall(r'\(([^(),]*),([^(),]*),([^(),]*)\),?', body)
    if re.sub(r'\([^(),]*,[^(),]*,[^(),]*\),?', '', body):
        raise Violation('%s: a row is not three literals' % what)
    return [tuple(re.sub(r'(?<=\d)f(32|64)$', '', c) for c in r) for r in rows]


def limit_of(test, bits):
    l = TESTS[test][4]
    l = l[0 if bits == 32 else 1] if isinstance(l, tuple) else l
    return l * 2.0 ** (-23 if bits == 32 else -53)


def run_tests(code, what, cwd=None):
    """Compile with the test harness and run: name -> passed."""
    d = cwd or build.scratch_dir('t')
    src = build.write(os.path.join(d, 'g.rs'), '#![allow(warnings)]\n' + code)
    r = build.rustc(src, os.path.join(d, 't'), opt=True, test=True)
    if r.returncode:
        raise Violation('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    try:
        r = subprocess.run([os.path.join(d, 't'), '--test-threads', '2'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=120)
    except subprocess.TimeoutExpired:
        raise Stuck('%s: the tests do not end' % what)
    res = {m.group(1): m.group(2) == 'ok' for m in re.finditer(r'^test (\w+) \.\.\. (ok|FAILED)', r.stdout.decode('utf-8', 'replace'), re.M)}
    if not cwd:
        shutil.rmtree(d, True)
    return res


# What a wrong function does: variant = (kind, multiple of the limit, row).
def wrong(variant, limit):
    kind, amount, row = variant
    amount = float(amount)
    if kind == 'offset':
        return '(%r as fty) + ' % (amount * limit)
    value = {'nan': '0.0 as fty / 0.0', 'inf': '1.0 as fty / 0.0', '-inf': '-1.0 as fty / 0.0', 'one': '%r as fty' % (amount * limit)}[kind]
    return '(if x == accurate_values[%d].0 { %s } else { 0.0 as fty }) + ' % (row, value)


@check('C35')
def c35(ctx):
    ctx.rule('Every function with tests in 32 and 64 bits: rows of the tables against mpmath, the tests compiled and run on the generated functions, '
             'and on functions made wrong at random (an offset, one wrong value, NaN or infinity at one row): the tests fail exactly if the error '
             'is above the limit. Plots of random tests. Non-trivial: every row, every wrong function.')
    fns = {}
    for t, (fn, *_) in TESTS.items():
        fns.setdefault(fn, []).append(t)
    jobs = [(fn, bits, number) for fn in list(fns) + list(HISTOGRAMS.values()) for bits in (32, 64) for number in ('decimal', 'hex')]
    rng = np.random.default_rng(ctx.seed_for('jobs'))
    if ctx.tier == 'quick':         # one number type each, chosen at random
        jobs = [j for j, k in ((j, rng.integers(0, 2)) for j in jobs[::2]) for j in [(j[0], j[1], ['decimal', 'hex'][k])]]
    jobs.sort(key=lambda j: (j[0] not in ('sin', 'acos', 'asin', 'log10', 'log', 'qnorm', 'cos'), -j[1]))
    ready = {}

    def load(job):
        fn, bits, number = job
        args = build.gen_args([fn], bits, number_type=number, extra=['--generate-tests'])
        code = gen(args).out
        return code, run_tests(code, 'libmgen ' + ' '.join(args))

    def get(job):
        if job not in ready:
            ready[job] = load(job)
        return ready[job]

    def table(case):
        fn, bits, number, test = case
        code, _ = get((fn, bits, number))
        what = '%s of -f %s --num-bits %d' % (test, fn, bits)
        found = tests_in(code)
        if test not in found:
            raise Violation('%s is missing' % what)
        rows = rows_of(found[test], what)
        _, _, lo, hi, _, n = TESTS[test]
        if len(rows) != n:
            raise Violation('%s has %d rows, not %d' % (what, len(rows), n))
        digits = 20 if bits == 32 else 40
        with mpmath.workprec(300):
            lo, hi = end_of(lo), end_of(hi)
            last = None
            for i, (xs, ys, es) in enumerate(rows):
                x, y, e = mpmath.mpf(xs), mpmath.mpf(ys), mpmath.mpf(es)
                for name, v in (('x', x), ('y', y)):
                    if nearest(v, bits) != v:
                        raise Violation('%s: row %d: %s = %s is not a float' % (what, i, name, mpmath.nstr(v, 60)))
                want = lo + (hi - lo) * i / n
                if abs(x - want) > abs(want) * N.EPS[bits] + mpmath.mpf(10) ** -(digits - 2):
                    raise Violation('%s: row %d is at %s, not at %s' % (what, i, mpmath.nstr(x, 20), mpmath.nstr(want, 20)))
                if last is not None and not x > last:
                    raise Violation('%s: row %d is not to the right of the one before' % (what, i))
                last = x
                t = true_of(fn, x)
                err = mpmath.mpf(10) ** -(digits - 6) * max(1, abs(t))
                if abs(y + e - t) > err:
                    raise Violation('%s: row %d: at %s the value is %s, the table says %s' % (what, i, mpmath.nstr(x, 20), mpmath.nstr(t, 50), mpmath.nstr(y + e, 50)))
                if nearest(t, bits) != y and abs(abs(nearest(t, bits) - t) - abs(y - t)) > err:
                    raise Violation('%s: row %d: at %s the table gives the float %s, the nearest of %s is %r' % (
                        what, i, mpmath.nstr(x, 20), mpmath.nstr(y, 30), mpmath.nstr(t, 30), nearest(t, bits)))
        ctx.batch('table', n, n, [{'test': test, 'bits': bits, 'number': number, 'row': list(rows[n // 2])}])

    def verdict(case):
        fn, bits, number, test = case
        _, res = get((fn, bits, number))
        ctx.case('verdict', case)
        if test not in res:
            raise Violation('%s of -f %s --num-bits %d is not run' % (test, fn, bits))
        if not res[test]:
            raise Violation('%s of -f %s --num-bits %d (%s) fails' % (test, fn, bits, number), sig='%s of %d bits fails' % (test, bits))

    if ctx.replaying is None:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda j: attempt(load, j), jobs))
        for j, g in zip(jobs, got):
            if isinstance(g, Violation):
                ctx.report('load', j, g)
            ready[j] = g
    else:
        ctx.fixed('load', [], lambda j: load(tuple(j)))
    ctx.fixed('table', [(*j, t) for j in jobs for t in fns.get(j[0], [])], table)
    ctx.fixed('verdict', [(*j, t) for j in jobs for t in fns.get(j[0], []) + [h for h, f in HISTOGRAMS.items() if f == j[0]]], verdict)

    # Functions made wrong.
    def data(job, test):
        """Limit, what the function gives at the rows, and the rows' high and low parts, in the float type of the test."""
        key = job, test
        if key not in cache:
            fn, bits, number = job
            code, _ = get(job)
            rows = rows_of(tests_in(code)[test], '%s of -f %s --num-bits %d' % (test, fn, bits))
            fty = np.float32 if bits == 32 else np.float64
            ev = evaluator(fn, bits, number)
            x, hi, lo = [np.array([float(r[k]) for r in rows]).astype(fty) for k in range(3)]
            y = ev.call(fn, x.astype(float), *[np.full(len(x), a) for a in TESTS[test][1]]).astype(fty)
            cache[key] = limit_of(test, bits), y, hi, lo
        return cache[key]

    def worst_of(job, test, variant):
        """The largest error of the wrong function, as a multiple of the limit."""
        limit, y, hi, lo = data(job, test)
        kind, amount, row = variant
        fty = y.dtype.type
        z = y.copy()
        if kind == 'offset':
            z = fty(amount * limit) + z
        elif kind == 'one':
            z[row] = fty(amount * limit) + z[row]
        else:
            z[row] = np.inf
        with np.errstate(all='ignore'):
            return float(np.max(np.abs((z - hi) - lo)) / limit)

    def bad(case):
        job, variants = tuple(case[0]), [(t, tuple(v)) for t, v in case[1]]
        for (test, variant), msg in judge(job, variants):
            raise Violation(msg)

    def judge(job, variants):
        """The variants that a test judges wrongly, with what is wrong."""
        fn, bits, number = job
        code, _ = get(job)
        found = tests_in(code)
        extra, expect = [], {}
        for k, (test, variant) in enumerate(variants):
            worst = worst_of(job, test, variant)
            if abs(worst - 1) < 0.02:
                continue
            name = 'wrong_%d' % k
            text, n = re.subn(r'\bfn +%s\b' % test, 'fn ' + name, found[test])
            text, m = re.subn(r'\| ?x ?\|', lambda _: '|x| ' + wrong(variant, limit_of(test, bits)), text)
            if n != 1 or m != 1:
                raise Violation('%s of -f %s --num-bits %d is not a test of one function' % (test, fn, bits))
            extra.append(text)
            expect[name] = test, variant, worst
        what = '-f %s --num-bits %d' % (fn, bits)
        d = build.scratch_dir('w')
        res = run_tests(code + '\n' + '\n'.join(extra), what + ' with wrong functions', d)
        shutil.rmtree(d, True)
        return [((test, variant), '%s of %s %s for a function (%s) whose largest error is %.3g times the limit' % (
                    test, what, 'passes' if res.get(name) else 'fails', wrong(variant, limit_of(test, bits)).strip(' +'), worst))
                for name, (test, variant, worst) in sorted(expect.items()) if res.get(name) != (worst <= 1)]

    evs, cache = {}, {}

    def evaluator(fn, bits, number):
        k = fn, bits, number
        if k not in evs:
            evs[k] = N.rust_evaluator(N.generate([fn], bits, number_type=number), bits, fn)
        return evs[k]

    def barely(job, test, rng, each):
        """Variants just above and just below the limit, upwards and downwards, at all rows or one."""
        n = len(data(job, test)[1])
        out = []
        for kind, sign in (('offset', 1), ('offset', -1), ('one', 1), ('one', -1)):
            row = int(rng.choice([0, n - 1, rng.integers(0, n), rng.integers(0, n)]))
            above = below = None
            for a in np.arange(0.05, 4, 0.05):
                v = (kind, float(round(sign * a, 2)), row)
                w = worst_of(job, test, v)
                if w > 1.02 and not above:
                    above = v
                if w < 0.98:
                    below = v
            out += [v for v in (above, below) if v]
        out += [(k, 0.0, int(rng.integers(0, n))) for k in ('nan', 'inf', '-inf')]
        return [(test, out[i]) for i in (rng.permutation(len(out))[:each] if each < len(out) else range(len(out)))]

    def all_wrong(job):
        rng = np.random.default_rng(ctx.seed_for('wrong %s' % (job,)))
        variants = [v for t in fns[job[0]] for v in barely(job, t, rng, 11)]
        return variants, judge(job, variants)

    if ctx.replaying is None:
        wjobs = [j for j in jobs if j[0] not in ('qnorm', 'nextafter') and j[0] in fns and not isinstance(ready[j], Violation)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda j: attempt(all_wrong, j), wjobs))
        for j, g in zip(wjobs, got):
            if isinstance(g, Violation):
                ctx.report('wrong function', [j, []], g)
                continue
            for test, v in g[0]:
                ctx.case('wrong function', [j, test, v], True, v[0])
            for tv, msg in g[1]:
                ctx.report('wrong function', [j, [tv]], Violation(msg))
    ctx.fixed('wrong function', [], bad)

    # Random functions made wrong, far beyond what chance does.
    def badhist(case):
        bits, number, kind, expr = case
        ctx.case('wrong random function', case, True, kind)
        code, _ = get(('runif', bits, number))
        other = re.sub(r'let y ?= ?([^;]*);', lambda m: 'let y = { let r = %s; %s };' % (m.group(1), expr), tests_in(code)['test_runif'])
        text = code.replace(code[re.search(r'# ?\[ ?test ?\]', code).start():], other)
        if run_tests(text, 'test_runif with a wrong function').get('test_runif') is not False:
            raise Violation('test_runif of %d bits passes for a function that is not uniform: r -> %s' % (bits, expr),
                            sig='histogram tests judge the last bucket only' if kind == 'below' else None)
    cases = [(*next(j for j in jobs if j[0] == 'runif' and j[1] == b)[1:], k, e) for b in (32, 64) for k, e in (
        ('below', 'if r < 0.5 { r * 0.5 } else { r }'), ('last', 'r * 0.9'), ('last', '1.0 - (1.0 - r) * (1.0 - r)'))]
    ctx.fixed('wrong random function', cases, badhist)

    # Plots.
    def plot(case):
        fn, bits, number = case
        ctx.case('plot', case, True, str(bits))
        args = build.gen_args([fn], bits, number_type=number, extra=['--generate-tests', '--generate-plots'])
        code = gen(args).out
        d = build.scratch_dir('p')
        # plots are drawn of tests that pass
        run_tests(re.sub(r'assert ?! ?\( ?max_ref_error ?<= ?limit ?\) ?;', '', code), 'libmgen ' + ' '.join(args), d)
        ev = evaluator(fn, bits, number)
        for t in fns[fn]:
            path = os.path.join(d, t + '.csv')
            if not os.path.exists(path):
                raise Violation('%s of libmgen %s writes no %s.csv' % (t, ' '.join(args), t))
            with open(path) as f:
                lines = [l.strip().split(',') for l in f]
            if len(lines) != TESTS[t][5] + 1 or any(len(l) != 4 for l in lines):
                raise Violation('%s.csv of libmgen %s has %d lines' % (t, ' '.join(args), len(lines)))
            v = np.array([[float(c) for c in l] for l in lines[1:]]).T
            want = np.array([[float(c) for c in r] for r in rows_of(tests_in(code)[t], t)]).T
            y = ev.call(fn, v[0], *[np.full(len(v[0]), a) for a in TESTS[t][1]])
            err = np.abs(y - want[1] - want[2])
            fty = np.float32 if bits == 32 else np.float64
            # numbers are written so that they can be read back
            for name, got, w, tol in (('x', v[0], want[0], 0), ('yref', v[1], want[1], 0), ('ycalc', v[2], y, 2 * N.EPS[bits] * np.abs(y)),
                                      ('eref', v[3], err, 1e-6 * np.abs(err) + N.EPS[bits] * 1e-3)):
                if np.any(np.abs(got.astype(fty) - w.astype(fty)) > tol):
                    raise Violation('%s.csv of libmgen %s: column %s differs' % (t, ' '.join(args), name))
        shutil.rmtree(d, True)
    ctx.prop('plot', st.tuples(st.sampled_from([f for f in fns if f not in ('sin', 'asin', 'acos', 'qnorm', 'log10', 'log', 'nextafter')]), bits_st, number_st), plot, ctx.n(4, 30))


def attempt(f, c):
    try:
        return f(c)
    except Violation as v:
        return v
    except Stuck as s:
        return Violation(str(s))


# ------------------------------------------------------------------ the command line
ALL_NAMES = TYPES + FUNCS + CONSTS + EMPTY + list(GROUPS)


@check('C38')
def c38(ctx):
    ctx.rule('Random command lines: known and unknown names, exclusions, options in any order and either spelling, defaults left out, bad '
             'languages, bad options. Non-trivial: the line has an unknown name, an exclusion, a reordered option or an error.')
    cheap = [n for n in FUNCS + CONSTS + TYPES + EMPTY if n not in ('rnorm', 'qnorm', 'sin_cos', 'sin', 'cos', 'tan', 'asin', 'acos')]
    unknown = st.one_of(st.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_', max_size=8), st.sampled_from(['Sin', 'sin ', ' cos', 'sin2', 'helpme', 'LOG', 'f32', '*', 'x/y', '"', "'"])
                        ).filter(lambda n: n not in ALL_NAMES and n != 'help')

    def names(case):
        ns, ex, bits, number, language, order, long, drop, out, debug = case
        ex = [e for e in ex]
        ctx.case('line', case, True, language)
        unk = [n for n in ns if n not in ALL_NAMES]
        known = [n for n in ns if n in ALL_NAMES]
        opts = [['--functions' if long & 1 else '-f', ','.join(ns)]]
        if ex:
            opts.append(['--exclude' if long & 2 else '-x', ','.join(ex)])
        if not (drop & 1 and bits == 64):
            opts.append(['--num-bits', str(bits)])
        if not (drop & 2 and number == 'decimal'):
            opts.append(['--number-type', number])
        if not (drop & 4 and language == 'rust'):
            opts.append(['--language', language])
        d = build.scratch_dir('cl')
        path = os.path.join(d, 'sub file')
        if out and long & 32:
            build.write(path, '// old\n' * 50000)
        if out:
            opts.append(['--output' if long & 4 else '-o', path])
        if debug:
            opts.append(['--debug' if long & 8 else '-d'])
        for i, j in order:
            i, j = i % len(opts), j % len(opts)
            opts[i], opts[j] = opts[j], opts[i]
        args = [('%s=%s' % tuple(o) if long & 16 and o[0].startswith('--') and len(o) == 2 else None) or o for o in opts]
        args = [a for o in args for a in ([o] if isinstance(o, str) else o)]
        # A function named '' at the front would be taken for no functions at all.
        g = build.libmgen(args)
        line = 'libmgen ' + ' '.join(map(repr, args))
        if g.code:
            raise Violation('%s ends with status %d: %s' % (line, g.code, g.err[-600:]))
        text = g.out
        if debug:
            first, _, text = text.partition('\n')
            if not first.startswith('opt='):
                raise Violation('%s does not print its options first: %r' % (line, first[:200]))
        if ','.join(ns) == '':
            if text or 'libmgen' in text or 're-run with -f or -h' not in g.err or os.path.exists(path) and not (out and long & 32):
                raise Violation('%s: without functions there is output, or no advice: %r %r' % (line, text[:200], g.err[:200]))
            return
        if out:
            if text:
                raise Violation('%s prints %r' % (line, text[:200]))
            if not os.path.exists(path):
                raise Violation('%s writes no file' % line)
            with open(path, newline='') as f:
                text = f.read()
        shutil.rmtree(d, True)
        # Unknown names are reported and nothing else.
        said = g.err.split('\n')
        for n in set(unk):
            if n and n not in ex and 'function %s not found' % n not in said:
                raise Violation('%s does not say that there is no %r: %r' % (line, n, g.err[:500]))
        for n in re.findall(r'^function (.*) not found$', g.err, re.M):
            if n in ALL_NAMES or n not in unk:
                raise Violation('%s says that there is no %s' % (line, n))
        for n in set(ns) & set(ex):
            if 'ignoring %s' % n not in said:
                raise Violation('%s does not say that it ignores %s: %r' % (line, n, g.err[:500]))
        for n in re.findall(r'^ignoring (.*)$', g.err, re.M):
            if n and n not in ex:
                raise Violation('%s ignores %s' % (line, n))
        left = [n for n in known if n not in ex]
        if not left:
            # (with the frame of the language)
            if re.search(r'\b(fn|const|type|typedef) +\w+', re.sub(r'const +N\b|type +(IntType|UintType)\b', '', text)):
                raise Violation('%s generates %r for no function' % (line, text[:300]))
            return
        want = gen(build.gen_args(left, bits, exclude=[e for e in ex if e in ALL_NAMES], number_type=number, language=language)).out
        if text != want:
            raise Violation('%s generates something else than -f %s with all options spelt out' % (line, ','.join(left)))

    strat = st.tuples(st.lists(st.one_of(st.sampled_from(cheap), st.sampled_from(cheap), unknown), min_size=1, max_size=5),
                      st.lists(st.one_of(st.sampled_from(ALL_NAMES), st.sampled_from(cheap), unknown.filter(bool)), max_size=3), bits_st, number_st,
                      st.sampled_from(['rust', 'rust', 'c', 'portable-simd']), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), max_size=6),
                      st.integers(0, 63), st.integers(0, 7), st.booleans(), st.booleans()).filter(
        lambda c: not ((members(c[0]) if c[4] != 'rust' else set()) & NOT_IN.get(c[4], set())) and not ','.join(c[0]).startswith('-') and not ','.join(c[1]).startswith('-'))
    ctx.prop('line', strat, names, ctx.n(200, 3000))

    def helps(_):
        for args in (['-f', 'help'], ['--functions', 'help'], ['-f', 'help', '--num-bits', '32'], ['-f=help']):
            g = gen(args)
            listed = g.out.split('\n')
            ctx.case('help', args)
            if listed[-1] != '' or len(set(listed)) != len(listed):
                raise Violation('libmgen %s lists a name twice: %s' % (' '.join(args), g.out))
            missing = set(ALL_NAMES) - set(listed)
            if missing:
                raise Violation('libmgen %s does not list %s' % (' '.join(args), sorted(missing)))
            # What is listed is known.
            g = gen(['-f', ','.join(listed[:-1]), '-x', ','.join(n for n in listed[:-1])])
            if 'not found' in g.err:
                raise Violation('a listed name is not known: ' + g.err)
            for n in set(listed[:-1]) - set(ALL_NAMES):
                one = gen(['-f', n])
                if 'not found' in one.err:
                    raise Violation('the listed name %s is not known' % n)
        g = gen(['-f', 'ity', '--language', 'help'])
        ctx.case('help', 'languages')
        for l in ('rust', 'c', 'portable-simd'):
            if not re.search(r'^\s*%s\s*$' % l, g.err, re.M):
                raise Violation('--language help does not list %s: %r' % (l, g.err))
        if g.out:
            raise Violation('--language help prints code: %r' % g.out[:200])
        g = gen(['--help'])
        for o in '--functions --exclude --num-bits --number-type --language --function-prefix --output --generate-tests --generate-plots --debug -f -x -o -d'.split():
            if not re.search(r'(^|\s)%s\b' % re.escape(o), g.out):
                raise Violation('--help does not mention %s' % o)
    ctx.fixed('help', ['help'], helps)

    def bad(case):
        kind, text, out, old = case
        d = build.scratch_dir('cb')
        path = os.path.join(d, 'f')
        if old:
            build.write(path, 'kept')
        ctx.case('refused', case, True, kind)
        args = {'language': ['-f', 'fty', '--language', text], 'option': ['-f', 'fty', '--' + text], 'bits': ['-f', 'fty', '--num-bits', text],
                'positional': ['-f', 'fty', text], 'none': []}[kind] + (['-o', path] if out else [])
        g = build.libmgen(args)
        line = 'libmgen ' + ' '.join(map(repr, args))
        if g.out:
            raise Violation('%s prints %r' % (line, g.out[:200]))
        if not old and os.path.exists(path) or old and open(path).read() != 'kept':
            raise Violation('%s writes a file' % line)
        if not g.err.strip() or 'panicked' in g.err:
            raise Violation('%s says %r' % (line, g.err[:300]))
        if kind == 'language' and text not in g.err:
            raise Violation('%s does not name the language: %r' % (line, g.err[:300]))
        if kind in ('option', 'bits', 'positional') and not g.code:
            raise Violation('%s ends with status 0' % line)
        shutil.rmtree(d, True)
    word = st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=8)
    strat = st.one_of(
        st.tuples(st.just('language'), st.one_of(word, st.sampled_from(['C', 'Rust', 'c++', 'fortran', 'RUST'])).filter(lambda w: w not in ('rust', 'c', 'help')), st.booleans(), st.booleans()),
        st.tuples(st.just('option'), word.map(lambda w: 'z' + w), st.booleans(), st.booleans()),
        st.tuples(st.just('bits'), st.one_of(word, st.sampled_from(['-1', '3.2', '', '0x20', '32f'])), st.booleans(), st.booleans()),
        st.tuples(st.just('positional'), word, st.booleans(), st.booleans()), st.tuples(st.just('none'), st.just(''), st.booleans(), st.booleans()))
    ctx.prop('refused', strat, bad, ctx.n(80, 800))
