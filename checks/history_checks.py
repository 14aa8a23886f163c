"""C45-C49: chains of transformations, the texts of errors, and that results do not depend on what went before."""
import os, random, re, shutil, struct, subprocess, tempfile
from fractions import Fraction

from hypothesis import strategies as st

from common import CheckError, Stuck, Violation
import build
import driver
import expr as X
import codegen_checks, eval_checks
from transform_checks import canon, envs, leaves, ok, ref_subst, same_value, small_lits, trees

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def terms(e):
    if e[0] == 'P':
        return terms(e[1])
    if e[0] == 'O' and e[1] in '+-':
        return terms(e[2]) + terms(e[3])
    if e[0] == 'O' and e[1] == '*':
        return terms(e[2]) * terms(e[3])
    if e[0] == 'U':
        return terms(e[2])
    return 1


# ------------------------------------------------------------------ C45
@check('C45')
def c45(ctx):
    ctx.rule('chains: a history of 2 to 8 steps (expand, paren, collect_terms, printing and parsing, substitution of trees and of '
             'numbers, operators with a tree on either side) on a random tree; after each step the value of the expression in memory '
             'and of its text, over two assignments of the variables, must be that of a reference tree that only the substitutions '
             'and operators change. numbers: the same, then every variable is bound and the result evaluated. Non-trivial: at least '
             'two different kinds of step, one of which is expand or paren after an operator or a substitution.')
    d = build.get_driver()
    kinds = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}

    def symbolic(e):
        """Never a literal, which would be divided to some number of digits."""
        return e if X.variables(e) else ('O', '+', e, ('V', 'x'))

    def prepare(start, steps):
        """Arguments of the driver and the reference tree after each."""
        ref, refs, args = start, [start], []
        for s in steps:
            if s[0] == 'subst':
                binds = [(n, X.from_json(v)) for n, v in s[1]]
                m = {}
                for n, v in binds:
                    m.setdefault(n, v)
                args.append(';;'.join(['subst'] + [t for n, v in binds for t in (n, X.render(v))]))
                ref = ref_subst(ref, m)
            elif s[0] == 'num':
                m = {}
                for n, v in s[1]:
                    m.setdefault(n, ('F', v, ''))
                args.append(';;'.join(['substbd'] + [t for n, v in s[1] for t in (n, v)]))
                ref = ref_subst(ref, m)
            elif s[0] == 'op':
                x = symbolic(X.from_json(s[3])) if s[1] == '/' else X.from_json(s[3])
                args.append('%s%s;;%s' % (kinds[s[1]], s[2], X.render(X.norm(x))))
                ref = ('O', s[1], ref, x) if s[2] == 'r' else ('O', s[1], x, ref)
            else:
                args.append(s[0] if s[0] != 'collect' else 'collect;;' + s[1])
            refs.append(ref)
            if terms(ref) > 150 or X.size(ref) > 400:
                break
        if terms(ref) > 150 or X.size(ref) > 400:
            args, refs = args[:-1], refs[:-1]
        return args, refs

    def nontrivial(steps):
        seen = False
        for s in steps:
            if s[0] in ('expand', 'paren') and seen:
                return len({t[0] for t in steps}) > 1
            seen = seen or s[0] in ('subst', 'num', 'op')
        return False

    def chain(case):
        start, steps = X.from_json(case[0]), case[1]
        src = X.render(X.norm(start))
        args, refs = prepare(start, steps)
        ctx.case('chains', [src, args], nontrivial(steps[:len(args)]), '%d steps' % len(args))
        f = ok(*d.call('pipeall', src, *args), '%s followed by %s' % (src, args))
        for i, ref in enumerate(refs):
            what = '%s followed by %s' % (src, args[:i])
            tag, g = d.call('fromstr', f[2 * i + 1])
            if tag != 'OK':
                raise Violation('%s is displayed as %r, which does not parse' % (what, f[2 * i + 1]))
            for t in (X.parse(f[2 * i]), X.parse(g[0])):
                same_value(ref, envs(ref), t, '%s: %s' % (what, f[2 * i + 1]))

    names = X.simple_names
    num = st.tuples(st.sampled_from(['', '-']), X.float_lits(maxdigits=4, exps=False)).map(lambda t: t[0] + t[1][1])
    plain = [st.just(('expand',)), st.just(('expand',)), st.just(('paren',)), st.just(('reparse',)), names.map(lambda n: ('collect', n))]

    def steps_over(operand):
        changes = [
            st.lists(st.tuples(names, operand), min_size=1, max_size=2).map(lambda b: ('subst', b)),
            st.lists(st.tuples(names, num), min_size=1, max_size=2).map(lambda b: ('num', b)),
            st.tuples(st.just('op'), st.sampled_from('+-*/'), st.sampled_from('rl'), operand),
            st.tuples(st.just('op'), st.sampled_from('-*'), st.sampled_from('rl'), operand)]
        return st.lists(st.one_of(*(plain + changes + changes)), min_size=2, max_size=8)

    tree = lambda n: trees(max_leaves=n, binary=('+', '-', '*', '/', '%', '<<', '&'))
    operand = st.one_of(leaves(), trees(max_leaves=3), tree(3), trees(max_leaves=5))
    ctx.prop('chains', st.tuples(st.one_of(trees(max_leaves=6), tree(6)), steps_over(operand)), chain, ctx.n(2500, 60000))

    # Down to a number: the steps, then an assignment of all variables and 60 digits.
    def numbers(case):
        start, steps, values = X.from_json(case[0]), case[1], case[2]
        src = X.render(X.norm(start))
        args, refs = prepare(start, steps)
        ref = refs[-1]
        env = dict(zip(['x', 'y', 'z', 'a', 'b'], values))
        ctx.case('numbers', [src, args, values], nontrivial(steps[:len(args)]), '%d steps' % len(args))
        what = '%s followed by %s with %s' % (src, args, env)
        try:
            want = X.exact(ref, {k: Fraction(v) for k, v in env.items()})
        except X.Undefined:
            return
        bind = ';;'.join(['substbd'] + [t for p in env.items() for t in p])
        f = ok(*d.call('pipe', src, *(args + [bind])), what)
        try:
            v, err = eval_checks.bounds(X.parse(f[0]), Fraction(1, 10 ** 60))
        except eval_checks.Unclear:
            return
        r = eval_checks.value_of(*d.call('pipe', src, *(args + [bind, 'eval;;60'])), 'eval(60) of ' + what)
        if abs(X.lit_value(r) - want) > err + abs(want) / 10 ** 58:
            raise Violation('eval(60) of %s is %s, not %s' % (what, float(X.lit_value(r)), float(want)))

    arith = trees(max_leaves=5, methods=())
    ctx.prop('numbers', st.tuples(arith, steps_over(st.one_of(leaves(), trees(max_leaves=3, methods=()))), st.lists(num, min_size=5, max_size=5)),
             numbers, ctx.n(1500, 30000))


# ------------------------------------------------------------------ C46
@check('C46')
def c46(ctx):
    ctx.rule('Random expressions around one to three operands without a value (unknown names, operators and methods, wrong numbers of '
             'arguments, arguments outside of the domain of a function), at any depth. The text of a CouldNotEvaluate error must be '
             'that of a part of the expression which has no value by itself although its own parts do, and the first such part in the order of '
             'evaluation. Non-trivial: the part is not the whole expression.')
    d = build.get_driver()
    A = dict(eval_checks.BAD_ATOMS)
    for k in ('literal', 'syntax', 'bool operand'):
        A.pop(k)
    A.update(eval_checks.DOMAIN_ATOMS)
    # Refused for another reason than for having no value.
    for k in ('ieeebits', 'ieeebig'):
        A.pop(k)
    # Small: powers and densities of large numbers take for ever.
    good = st.sampled_from([('I', str(i), '') for i in range(8)] + [('F', f, '') for f in ('0.5', '1.25', '2.0', '0.1')])
    sd = st.sampled_from([('I', '1', ''), ('I', '3', '')])

    @st.composite
    def cases(draw):
        def grow(depth):
            k = draw(st.integers(0, 9))
            if depth == 0:
                if k < 5:
                    return draw(A[draw(st.sampled_from(sorted(A)))])
                return draw(good)
            if k < 2:
                return ('O', draw(st.sampled_from('+-*/')), draw(good), grow(depth - 1))
            if k < 4:
                return ('O', draw(st.sampled_from('+-*/')), grow(depth - 1), draw(good))
            if k < 6:
                return ('O', draw(st.sampled_from('+-*/')), grow(depth - 1), grow(depth - 1))
            if k == 6:
                return ('U', '-', grow(depth - 1))
            if k == 7:
                return ('P', grow(depth - 1))
            if k == 8:
                return ('M', draw(st.sampled_from(['abs', 'sin', 'atan'])), grow(depth - 1), ())
            return ('M', 'powi', draw(good), (grow(depth - 1),)) if draw(st.booleans()) else ('M', 'dnorm', grow(depth - 1), (grow(depth - 1), draw(sd)))
        return [X.render(X.norm(grow(draw(st.integers(0, 3))))), draw(st.sampled_from([10, 20]))]

    def first_bad(e, n, seen):
        """The first part, in the order of evaluation, without a value of its own."""
        for c in X.children(e):
            r = first_bad(c, n, seen)
            if r is not None:
                return r
        src = X.render(X.norm(e))
        if src not in seen:
            seen[src] = d.call('pipe', src, 'eval;;%d' % n)
        tag, f = seen[src]
        if tag == 'PANIC':
            raise Violation('eval of %s panics: %s' % (src, f[0]))
        return e if tag == 'ERR' else None

    def one(case):
        src, n = case
        tag, f = d.call('pipe', src, 'eval;;%d' % n)
        if tag == 'PANIC':
            raise Violation('eval of %s panics: %s' % (src, f[0]))
        e = X.parse(d.call('fromstr', src)[1][0])
        bad = first_bad(e, n, {})
        ctx.case('named', [src, n], bad is not None and canon(bad) != canon(e), 'value' if bad is None else bad[0])
        if bad is None:
            if tag != 'OK':
                raise Violation('eval of %s fails (%s), although all its parts have values' % (src, f[0]))
            return
        if tag == 'OK':
            raise Violation('eval of %s is %s, although %s has no value' % (src, f[1], X.render(bad)))
        m = re.match(r'^CouldNotEvaulate\((.*)\)$', f[0], re.S)
        if not m:
            raise Violation('the error of eval of %s names nothing: %s' % (src, f[0]))
        tag, g = d.call('fromstr', m.group(1))
        if tag != 'OK':
            raise Violation('the error of eval of %s is about %r, which is no expression' % (src, m.group(1)))
        if canon(X.parse(g[0])) != canon(bad):
            raise Violation('the error of eval of %s is about %s, not about %s' % (src, m.group(1), X.render(bad)))

    ctx.prop('named', cases(), one, ctx.n(2500, 40000))


# ------------------------------------------------------------------ C47
SOURCES = [
    'const A: fty = 0.1; fn f(x: fty) -> fty { let y: fty = x * A; if x < A { y } else { y + x } }',
    'type fty = f64; const B: fty = 1.5; fn g(x: fty, y: fty) -> fty { select(x < y, x * B, y.mul_add(x, B)) }',
    'const A: fty = 3.0; fn h(x: fty) -> fty { let a: fty = A; let b: fty = a.abs(); b - x }',
    'fn k(x: fty) -> fty { fty::from_bits(x.to_bits() & ONE_MASK) } const ONE_MASK: uty = 7;',
    'fn m(x: fty) -> fty { f(x) + g(x, x) }',
    'fn bad(x: fty) -> fty { loop { } }',
    'static S: u8 = 1;',
]


@check('C47')
def c47(ctx):
    ctx.rule('histories: 2 to 8 operations (evaluation to any number of digits, functions, transformations, approximations, output as '
             'Rust, C and portable-simd, some of which fail or panic), in one process in one order, in another process in another '
             'order with some repeated, and all at once in threads: every result must be the same. contended: the same operations with different parameters, each 20 times in a thread of its own. command line: libmgen with random '
             'arguments in another directory, another environment, and beside other runs. Non-trivial: at least two different '
             'operations, of which two are evaluations with different numbers of digits or two write code.')
    d = build.get_driver()
    digits = st.sampled_from([1, 5, 10, 17, 20, 30, 40, 60])
    # Some of them differ far behind the point only.
    arg = st.sampled_from(['0.5', '0.1', '1.25', '0.75', '2', '0.001', '0.3333', '0.33333', '0.5000000000000000000001', '0.10000000001', '1.2500001'])
    ends = st.sampled_from([(0.1, 1.0), (0.1, 2.0), (0.2, 1.0), (-1.0, 1.0)]).map(lambda t: ';;'.join('%016x' % struct.unpack('<Q', struct.pack('<d', v))[0] for v in t))
    text = st.one_of(
        st.just('PI'), st.tuples(st.sampled_from(['sin', 'cos', 'tan', 'exp', 'ln', 'sqrt', 'atan', 'exp2', 'log2', 'log10', 'erf', 'recip']), arg).map(
            lambda t: '(%s).%s()' % (t[1], t[0])),
        st.tuples(st.sampled_from(['dnorm', 'pnorm', 'qnorm']), arg, st.sampled_from(['0, 1', '1, 1', '0, 2'])).map(lambda t: '(%s).%s(%s)' % (t[1], t[0], t[2])),
        st.tuples(arg, arg, st.sampled_from(['powf', 'log'])).map(lambda t: '(%s).%s(%s)' % (t[0], t[2], t[1])),
        st.tuples(arg, arg, st.sampled_from('+-*/')).map(lambda t: '%s %s %s * PI' % (t[0], t[2], t[1])),
        st.tuples(arg, st.sampled_from(['32', '64'])).map(lambda t: '(%s / 3).round_ieee(%s)' % t),
        st.sampled_from(['asin(1)', '(2).asin()', '0.2.asin()', '1 / 0', 'x + 1']))
    symbolic = trees(max_leaves=5).map(lambda e: X.render(X.norm(e)))
    op = st.one_of(
        st.tuples(text, digits).map(lambda t: ('pipe', t[0], 'eval;;%d' % t[1])),
        st.tuples(text, digits).map(lambda t: ('pipe', t[0], 'eval;;%d' % t[1])),
        st.tuples(st.sampled_from(['pi', 'sqrt_two', 'one_over_root_two_pi']), digits).map(lambda t: ('bd', t[0], str(t[1]))),
        st.tuples(st.sampled_from(['sin', 'cos', 'asin', 'exp', 'ln', 'erf', 'sqrt']), digits, st.sampled_from(['0.5', '0.25', '1', '0'])).map(
            lambda t: ('bd', t[0], str(t[1]), t[2])),
        st.tuples(symbolic, st.sampled_from(['expand', 'paren', 'collect;;x', 'subst;;x;;y + 1', 'numtype;;f64;;64', 'numtype;;f32;;32'])).map(
            lambda t: ('pipe', t[0], t[1])),
        st.tuples(st.sampled_from(['x.sin()', 'x.exp()', 'x * x', 'x.exp() + y']), st.integers(2, 5), ends, st.sampled_from('xxxy'), digits).map(
            lambda t: ('pipe', t[0], 'approx;;%d;;%s;;%s;;neither;;%d' % t[1:])),
        st.tuples(st.sampled_from(SOURCES), st.sampled_from(['', 'p_', 'q_']), st.sampled_from(['', 'f'])).map(lambda t: ('to_c',) + t),
        st.tuples(st.sampled_from(SOURCES), st.sampled_from(['32', '64'])).map(lambda t: ('to_simd',) + t),
        st.sampled_from(SOURCES).map(lambda s: ('fmt', s)))

    def show(o):
        return ' '.join(o)

    def history(case):
        ops, seed = [tuple(o) for o in case[0]], case[1]
        evals = {o[2] for o in ops if o[0] == 'pipe' and o[2].startswith('eval')}
        ctx.case('histories', [ops, seed], len(set(ops)) > 1 and (len(evals) > 1 or sum(o[0] in ('to_c', 'to_simd', 'fmt') for o in ops) > 1),
                 '%d operations' % len(ops))
        first = [d.call(*o) for o in ops]
        rnd = random.Random(seed)
        order = list(range(len(ops))) + [rnd.randrange(len(ops)) for _ in range(3)]
        rnd.shuffle(order)
        other = build.get_driver()
        try:
            for i in order:
                r = other.call(*ops[i])
                if r != first[i]:
                    raise Violation('%s is %s %s in one history and %s %s in another (%s)' % (
                        show(ops[i]), first[i][0], first[i][1][:2], r[0], r[1][:2], [show(ops[j]) for j in order]))
        finally:
            other.close()
        threads(ops, first, 1)

    def threads(ops, first, n):
        r = d.call('threads', str(n), *['\x1f'.join(o) for o in ops])
        if r[0] != 'OK':
            raise Violation('threads: %s' % r[1])
        for o, a, b in zip(ops, first, r[1]):
            tag, *f = b.split('\x1f')
            if (tag, f) != (a[0], a[1]):
                raise Violation('%s is %s %s alone and %s %s beside %s' % (show(o), a[0], a[1][:2], tag, f[:2], [show(x) for x in ops]))

    ctx.prop('histories', st.tuples(st.lists(op, min_size=2, max_size=8), st.integers(0, 1000)), history, ctx.n(500, 10000))

    # Quick operations again and again at the same time, the same ones with other parameters among them.
    deep = st.recursive(st.one_of(arg, st.just('PI'), st.sampled_from(['(0.3).exp()', '(0.7).sqrt()', '(0.2).sin()', '(3).ln()', '(1.5).atan()'])),
                        lambda s: st.tuples(s, st.sampled_from('+-**/'), s).map(lambda t: '(%s) %s (%s)' % (t[0], t[1], t[2])), max_leaves=8)
    alike = st.one_of(
        st.tuples(deep, st.lists(st.sampled_from([3, 5, 10, 20, 40, 60]), min_size=2, max_size=4, unique=True)).map(
            lambda t: [('pipe', t[0], 'eval;;%d' % n) for n in t[1]]),
        deep.map(lambda e: [('pipe', e, 'numtype;;f%d;;%d' % (b, b)) for b in (32, 64)]),
        st.tuples(st.sampled_from(['x.sin()', 'x * x', 'x.exp()']), st.integers(2, 4), ends, ends).map(lambda t: [
            ('pipe', t[0], 'approx;;%d;;%s;;x;;neither;;%d' % (t[1], e, n)) for n in (15, 25) for e in t[2:]]),
        symbolic.map(lambda e: [('pipe', e, o) for o in ('expand', 'paren', 'subst;;x;;y + 1')]),
        st.sampled_from(SOURCES).map(lambda s: [('to_c', s, 'p_', ''), ('to_c', s, 'q_', 'f'), ('to_simd', s, '32'), ('to_simd', s, '64')]))

    def contended(groups):
        ops = [tuple(o) for g in groups for o in g]
        ctx.case('contended', ops, len(set(ops)) > 1)
        threads(ops, [d.call(*o) for o in ops], 20)

    ctx.prop('contended', st.lists(alike, min_size=1, max_size=3), contended, ctx.n(900, 15000))

    # The generator as a whole.
    exe = build.libmgen_exe()
    names = st.sampled_from('sin cos tan asin exp2 exp ln log2 powf sqrt recip hypot sinh dnorm'.split())
    flags = st.tuples(st.lists(names, min_size=1, max_size=2, unique=True), st.sampled_from(['rust', 'c', 'portable-simd']),
                      st.sampled_from(['32', '64']), st.sampled_from([(), ('--generate-tests',), ('--number-type', 'hex')]))
    setting = st.tuples(st.sampled_from(['LANG', 'LC_ALL', 'TZ', 'HOME', 'COLUMNS', 'RUST_BACKTRACE', 'RUST_LOG', 'USER', 'NO_COLOR', 'DEBUG']),
                        st.sampled_from(['', '0', '1', 'full', 'de_DE.UTF-8', 'tr_TR.UTF-8', '/nowhere', 'Asia/Kathmandu']))

    def generator(case):
        (fs, lang, bits, extra), sets, clean = case
        args = ['--functions', ','.join(fs), '--language', lang, '--num-bits', bits] + list(extra)
        ctx.case('command line', [args, sets, clean], bool(sets) or clean)
        base = {'PATH': os.environ.get('PATH', '')}
        env = {} if clean else dict(base)
        env.update(dict(sets))
        t = build.scratch_dir('h')
        try:
            ps = [subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=c, env=e)
                  for c, e in (('/', base), (t, env), (t, base))]
            out = []
            for p in ps:
                try:
                    o, _ = p.communicate(b'stray input\n', timeout=240)
                except subprocess.TimeoutExpired:
                    for q in ps:
                        q.kill()
                    raise Stuck('libmgen %s does not end' % ' '.join(args))
                out.append((p.returncode, o))
            left = os.listdir(t)
        finally:
            shutil.rmtree(t, True)
        if left:
            raise Violation('libmgen %s leaves %s behind' % (' '.join(args), left))
        for o, w in ((out[1], 'in another directory with %s' % env), (out[2], 'in another directory')):
            if o != out[0]:
                raise Violation('libmgen %s writes another text %s' % (' '.join(args), w))

    ctx.prop('command line', st.tuples(flags, st.lists(setting, max_size=3), st.booleans()), generator, ctx.n(30, 300))


# ------------------------------------------------------------------ C48
DIRECT = '''
fn planned<F: Fn(fty) -> fty>(name: &str, table: &[(fty, fty, fty)], limit: fty, f: F) {
    test_function(name, table, limit, f);
}
'''
REPORT = r'''
fn main() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let v: Vec<fty> = f[1..].iter().map(|t| fty::from_bits(uty::from_str_radix(t, 16).unwrap())).collect();
        let table: Vec<(fty, fty, fty)> = v[1..].chunks(4).map(|r| (r[0], r[1], r[2])).collect();
        let values: std::collections::HashMap<uty, fty> = v[1..].chunks(4).map(|r| (r[0].to_bits(), r[3])).collect();
        println!("@@");
        let passed = std::panic::catch_unwind(|| planned(f[0], &table, v[0], |x| values[&x.to_bits()])).is_ok();
        println!("@@ {}", passed);
    }
}
'''


@check('C48')
def c48(ctx):
    ctx.rule('Random tables of up to 40 rows with errors from none to infinite and NaN, run through the test function that libmgen '
             'writes, with a function that returns the planned values. Its report must name the test, a row with the largest error '
             '(NaN above all), the value and the reference there, this error and the limit; it must pass exactly if the error is no '
             'more than the limit. Non-trivial: the worst row is neither the first nor the last.')
    import numpy as np
    from gen_checks import gen, items
    import functools

    def program(bits):
        """The test function in a program of its own, called by name or in the way of a generated test."""
        code = gen(['--functions', 'sin', '--num-bits', str(bits), '--generate-tests']).out
        parts = [(n, t) for k, n, t in items(code)]
        is_test = lambda t: re.match(r'# ?\[ ?test ?\]', t)
        rest = '\n'.join(re.sub(r'# ?\[ ?cfg ?\( ?test ?\) ?\]', '', t) for n, t in parts if not is_test(t))
        if 'type uty' not in ' '.join(rest.split()):
            rest += '\ntype uty = u%d;' % bits
        calls = [DIRECT]
        for n, t in parts:
            if is_test(t) and 'accurate_values' in t:
                t = re.sub(r'# ?\[ ?test ?\]', '', t)
                t = re.sub(r'(pub )?fn \w+ ?\( ?\)', 'fn planned<F: Fn(fty) -> fty>(name: &str, table: &[(fty, fty, fty)], limit: fty, f: F)', t, count=1)
                t = re.sub(r'accurate_values[^=]*= ?& ?\[.*?\] ?;', 'accurate_values = table;', t, flags=re.S)
                t = re.sub(r'"%s"' % n, 'name', t)
                t = re.sub(r'[0-9][0-9.e_f-]* ?as fty', 'limit', t)
                t = re.sub(r'\| ?x ?\|.*?\) ?;', '|x| f(x));', t, count=1, flags=re.S)
                calls.append(t)
                break
        d = build.scratch_dir('r')
        for call in calls:
            src = build.write(os.path.join(d, 'g.rs'), '\n'.join([rest, call, REPORT]))
            r = build.rustc(src, os.path.join(d, 'r'), opt=True)
            if not r.returncode:
                return os.path.join(d, 'r')
        src = build.write(os.path.join(d, 'g.rs'), code)
        t = build.rustc(src, os.path.join(d, 't'), test=True)
        if t.returncode:
            raise Violation('the generated tests with %d bits do not compile: %s' % (bits, t.stderr.decode('utf-8', 'replace')[:1500]))
        print('C48: no way to run the test function of %d bits by itself: %s' % (bits, r.stderr.decode('utf-8', 'replace')[:1500]))
        return None

    exes = {b: program(b) for b in (32, 64)}
    exes = {b: e for b, e in exes.items() if e}
    if not exes:
        return
    T = {32: (np.float32, np.uint32), 64: (np.float64, np.uint64)}

    def close(text, v):
        try:
            w = float(text)
        except ValueError:
            return False
        v = float(v)
        if v != v or w != w:
            return v != v and w != w
        return w == v or abs(w - v) <= 1e-6 * abs(v) + 1e-19

    def reports(case):
        bits, tables = case
        F, U = T[bits]
        lines, plan = [], []
        for k, (limit, rows) in enumerate(tables):
            xs, out = set(), []
            for (x, y, e, err) in rows:
                x, y = F(x), F(y)
                if x.tobytes() in xs:
                    continue
                xs.add(x.tobytes())
                with np.errstate(all='ignore'):
                    e = F(y * F(e))
                    c = F(y + e + F(err) * F(2.0 ** (-23 if bits == 32 else -50)))
                out.append((x, y, e, c))
            limit = F(limit * 2.0 ** (-23 if bits == 32 else -50))
            lines.append(' '.join(['t%d' % k] + ['%x' % int(v.view(U)) for v in [limit] + [q for r in out for q in r]]))
            plan.append((limit, out))
        try:
            p = subprocess.run([exes[bits]], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            raise Stuck('the test function does not end')
        blocks = re.findall(r'^@@\n(.*?)^@@ (true|false)$', p.stdout.decode('utf-8', 'replace'), re.M | re.S)
        if len(blocks) != len(plan):
            raise Violation('the test function ends the process: %s' % p.stderr.decode('utf-8', 'replace')[:300])
        for k, ((limit, rows), (text, passed)) in enumerate(zip(plan, blocks)):
            what = 'f%d, limit %r, rows (x, reference, its error, value) %s' % (bits, float(limit), [tuple(map(float, r)) for r in rows])
            with np.errstate(all='ignore'):
                errs = [abs(F(F(c - y) - e)) for x, y, e, c in rows]
            nan = [i for i, e in enumerate(errs) if e != e]
            top = max([e for e in errs if e == e], default=F(0))
            worst = nan or [i for i, e in enumerate(errs) if e >= top * F(0.9999) and e > 0]
            ctx.case('reports', [bits, lines[k]], bool(worst) and 0 not in worst and len(rows) - 1 not in worst,
                     'nan' if nan else 'inf' if np.isinf(top) else 'zero' if top == 0 else 'finite')
            # The verdict, unless the largest error is the limit to rounding.
            if nan or abs(float(top) - float(limit)) > 1e-4 * float(limit) or top == limit:
                if (passed == 'true') != (not nan and top <= limit):
                    raise Violation('the test %s although the largest error is %s: %s' % ('passes' if passed == 'true' else 'fails', 'NaN' if nan else float(top), what))
            if 't%d:' % k not in text:
                raise Violation('the report of t%d does not name it: %s' % (k, text))
            get = lambda pat: (re.findall(pat, text, re.M) or [None])[0]
            shown = get(r'^max_ref_error\s*=\s*(\S+)$')
            if shown is None or not close(shown, float('nan') if nan else top):
                raise Violation('the report gives the error %s, not %s: %s' % (shown, 'NaN' if nan else float(top), what))
            lim = get(r'^limit\s*x 2\^53\s*=\s*(\S+)$')
            big = get(r'^max_ref_error x 2\^53\s*=\s*(\S+)$')
            for s, v in ((lim, limit), (big, float('nan') if nan else top)):
                v = float(v) * 2.0 ** 53
                if s is None or not (close(s, v) or abs(float(s) - v) <= 0.0051):
                    raise Violation('the report gives %s for %s x 2^53: %s' % (s, v, what))
            if not worst:
                continue
            rep = [get(r'^%s\s*=\s*([0-9a-f]{16})\s+(\S+)$' % n) for n in ('x', 'ycalc', 'yref')]
            if None in rep:
                raise Violation('the report lacks the worst row: %s' % text)
            hexes = [int(h, 16) for h, _ in rep]
            for (h, dec), n in zip(rep, ('x', 'ycalc', 'yref')):
                v = U(int(h, 16)).view(F)
                if not close(dec, v):
                    raise Violation('the report writes %s as %s and %s: %s' % (n, h, dec, what))
            if not any(hexes == [int(v.view(U)) for v in (rows[i][0], rows[i][3], rows[i][1])] or
                       (rows[i][3] != rows[i][3] and [hexes[0], hexes[2]] == [int(v.view(U)) for v in (rows[i][0], rows[i][1])])
                       for i in worst):
                raise Violation('the report is about x = %r, y = %r instead of %r, the largest error is at x = %r: %s' % (
                    float(U(hexes[0]).view(F)), float(U(hexes[1]).view(F)), float(U(hexes[2]).view(F)), [float(rows[i][0]) for i in worst], what))

    val = st.one_of(st.floats(-4, 4), st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5]), st.floats(-1e30, 1e30))
    ydist = st.one_of(st.floats(-2, 2), st.sampled_from([0.0, 1.0]))
    err = st.one_of(st.just(0.0), st.floats(-4, 4), st.floats(-4, 4), st.sampled_from([1.0, -1.0, 2.0, 1e6, float('inf'), -float('inf'), float('nan')]))
    small = st.sampled_from([0.0, 2.0 ** -25, -2.0 ** -25, 2.0 ** -55])
    # Most tables have only finite errors.
    calm = st.one_of(st.just(0.0), st.floats(-4, 4), st.floats(-4, 4), st.sampled_from([1.0, -1.0, 2.0]))
    table = st.tuples(st.sampled_from([0.5, 1.0, 2.0, 3.5, 1e5]), st.one_of(
        st.lists(st.tuples(val, ydist, small, calm), min_size=1, max_size=40), st.lists(st.tuples(val, ydist, small, calm), min_size=2, max_size=8),
        st.lists(st.tuples(val, ydist, small, err), min_size=1, max_size=12)))
    ctx.prop('reports', st.tuples(st.sampled_from(sorted(exes)), st.lists(table, min_size=1, max_size=20)), reports, ctx.n(250, 5000))


# ------------------------------------------------------------------ C49
COMPILERS = [('gcc -O0', ['gcc', '-O0']), ('gcc -O3', ['gcc', '-O3']), ('clang -O0', ['clang', '-O0']), ('clang -O3', ['clang', '-O3'])]
CASTS = ['gcc', '-O0', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=float-cast-overflow']
UBSAN = ['gcc', '-O0', '-g', '-fsanitize=undefined']
C_MAIN = r'''
#include <stdio.h>
#include <string.h>
static fty F(unsigned long long w) { union { fty f; uty u; } v; v.u = (uty)w; return v.f; }
int main(int argc, char **argv) {
    const char *n = argv[1];
    unsigned long long r[4];
%s
    return 3;
}
'''
C_CASE = ('    if (!strcmp(n, "%s")) { while (fread(r, 8, %d, stdin) == %d) { union { %s v; uty u; } o; o.u = 0; o.v = %s; '
          'unsigned long long w = o.u; fwrite(&w, 8, 1, stdout); } return 0; }')


@check('C49')
def c49(ctx):
    ctx.rule('Every function of the generated C library that can be asked for, helpers included. compilers: ordinary arguments of all magnitudes (whose conversions to '
             'integers are in range), computed by gcc and clang without and with optimisation: the same bits (any NaN for a NaN). undefined: any '
             'bit patterns as arguments in a build with the undefined behaviour sanitizer (conversions of floats that are out of range are not '
             'part of it): no report. Distinct by function and arguments.')
    import numpy as np
    import numlib as N
    from accuracy_checks import NAMED, SELECTION, random_words, rng_for, show_word
    for bits in (32, 64):
        ft, it = 'f%d' % bits, 'i%d' % bits
        try:
            code = N.generate(SELECTION + ',nextafter', bits, exclude='sin_cos', language='c')
        except N.Broken as v:
            ctx.report('build', {'bits': bits}, v)
        prefix = 'ds%d_' % bits
        sigs, cases = {}, []
        for m in re.finditer(r'^\s*(?:static\s+|inline\s+)*(fty|uty|ity|double|float)\s+(%s\w+)\s*\(([^()]*)\)\s*\{' % prefix, code, re.M):
            types = [a.split()[0] for a in m.group(3).split(',') if len(a.split()) == 2]
            ctypes, types = types, [{'fty': ft, 'ity': it, 'uty': 'u%d' % bits, 'double': ft, 'float': ft, '__SIZE_TYPE__': 'u64'}.get(t) for t in types]
            if m.group(2)[len(prefix):] not in NAMED or None in types or not 1 <= len(types) <= 4:
                continue
            args = ', '.join('F(r[%d])' % i if t[0] == 'f' else '(%s)r[%d]' % (c, i) for i, (t, c) in enumerate(zip(types, ctypes)))
            fn = m.group(2)[len(prefix):]
            ret = {'fty': ft, 'double': ft, 'float': ft, 'uty': 'u%d' % bits, 'ity': it}[m.group(1)]
            cases.append(C_CASE % (fn, len(types), len(types), m.group(1), '%s(%s)' % (m.group(2), args)))
            sigs[fn] = types, ret
        if len(sigs) < 20:
            raise CheckError('only %d functions in the C library' % len(sigs))
        d = build.scratch_dir('u')
        src = build.write(os.path.join(d, 'm.c'), code + C_MAIN % '\n'.join(cases))
        exes = []
        for name, cmd in COMPILERS + [('casts', CASTS), ('sanitizer', UBSAN)]:
            exe = os.path.join(d, name.replace(' ', ''))
            r = build.run(cmd + ['-std=gnu11', '-w', '-ffp-contract=off', src, '-o', exe, '-lm'])
            if r.returncode:
                ctx.report('build', {'bits': bits}, Violation('the C library of %d bits does not compile with %s: %s' % (bits, name, r.stderr.decode('utf-8', 'replace')[:1500])))
            exes.append((name, exe))
        for fn, (types, ret) in sigs.items():
            c_function(ctx, bits, fn, types, ret, exes, rng_for(ctx, 'c%s%d' % (fn, bits)), random_words, show_word)
        shutil.rmtree(d, True)


def ordinary(rng, n, t):
    """Arguments whose conversions to integers are in range."""
    import numpy as np
    if t[0] != 'f':
        w = rng.integers(0 if t[0] == 'u' else -200, 200, n).astype(np.int64).view(np.uint64) & np.uint64(2 ** int(t[1:]) - 1)
        return np.where(rng.random(n) < 0.5, w, rng.integers(0, 2 ** 64, n, dtype=np.uint64)) if t == 'u64' else w
    f, u = (np.float32, np.uint32) if t == 'f32' else (np.float64, np.uint64)
    x = np.concatenate([rng.normal(size=n // 4) * np.exp2(rng.integers(-25, 21, n // 4)), rng.uniform(-1, 1, n // 4), rng.uniform(-100, 100, n // 4)])
    sp = np.array([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, -2.5, 3.0, 88.0, -88.0, 100.0, np.finfo(f).tiny, 2.0 ** -60, np.pi, np.pi / 2])
    x = np.concatenate([x, rng.choice(sp, n // 8)])
    x = np.concatenate([x, np.round(rng.normal(size=n - len(x)) * 50) / 2])
    return rng.permutation(x).astype(f).view(u).astype(np.uint64)


def c_function(ctx, bits, fn, types, ret, exes, rng, random_words, show_word):
    import numpy as np
    import numlib as N
    label = '%s%d' % (fn, bits)

    def go(exe, a):
        return N.pump([exe, fn], np.ascontiguousarray(a).view(np.float64), 1, label).view(np.uint64).reshape(-1)

    def differ(a):
        """For every row, the index of a compiler that disagrees with the first, or 0."""
        first = go(exes[0][1], a)
        out = np.zeros(len(a), int)
        res = [first]
        for i, (name, exe) in enumerate(exes[1:-2]):
            y = go(exe, a)
            eq = y == first
            if ret[0] == 'f':
                nan = (lambda w: np.isnan(w.astype(np.uint32).view(np.float32))) if ret == 'f32' else (lambda w: np.isnan(np.ascontiguousarray(w).view(np.float64)))
                eq |= nan(y) & nan(first)
            out[~eq] = i + 1
            res.append(y)
        return out, res

    def fits(a):
        """Whether the conversions of floats fit the integers."""
        return not subprocess.run([exes[-2][1], fn], input=np.ascontiguousarray(a).tobytes(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode

    def reported(a):
        r = subprocess.run([exes[-1][1], fn], input=np.ascontiguousarray(a).tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        return r.stderr.decode('utf-8', 'replace')

    def run(case):
        kind = case and case['kind']
        if kind in (None, 'compilers'):
            if case is None:
                n = ctx.n(8000, 400000)
                a = np.unique(np.stack([ordinary(rng, n, t) for t in types], axis=1), axis=0)
                ctx.batch('%s compilers' % label, len(a), len(a), [{'args': [show_word(w, t) for w, t in zip(a[len(a) // 2], types)]}])
            else:
                a = np.array([[int(w, 16) for w in case['args']]], dtype=np.uint64)
            bad, res = differ(a)
            wrong = sorted(np.nonzero(bad)[0], key=lambda j: sum(len(show_word(w, t)) for w, t in zip(a[j], types)))[:200]
            wrong = [j for j in wrong if fits(a[j:j + 1])][:1]
            for i in wrong:
                ctx.report(label, {'kind': 'compilers', 'args': ['%x' % int(w) for w in a[i]]}, Violation('%s(%s) in C, %d bits, is %s with %s and %s with %s' % (
                    fn, ', '.join(show_word(w, t) for w, t in zip(a[i], types)), bits, show_word(res[0][i], ret), exes[0][0],
                    show_word(res[bad[i]][i], ret), exes[bad[i]][0])))
        if kind in (None, 'undefined'):
            if case is None:
                n = ctx.n(8000, 400000)
                a = np.unique(np.stack([random_words(rng, n, t) for t in types], axis=1), axis=0)
                ctx.batch('%s undefined' % label, len(a), len(a))
            else:
                a = np.array([[int(w, 16) for w in case['args']]], dtype=np.uint64)
            text = reported(a)
            if 'runtime error' in text:
                while len(a) > 1:       # a single row that is reported
                    half = a[:len(a) // 2]
                    a = half if 'runtime error' in reported(half) else a[len(a) // 2:]
                ctx.report(label, {'kind': 'undefined', 'args': ['%x' % int(w) for w in a[0]]}, Violation('%s(%s) in C, %d bits, has no defined value: %s' % (
                    fn, ', '.join(show_word(w, t) for w, t in zip(a[0], types)), bits, re.sub(r'\S*m\.c:', 'm.c:', reported(a)).strip()[:300])))
    ctx.numeric(label, run)
