"""C08-C11, C15-C17: operators, substitution, expansion, parentheses, the visitor, parsing, formatting."""
import os, re, shutil, subprocess
from fractions import Fraction

from hypothesis import strategies as st

from common import Violation
import build
import expr as X

ALL_BIN = ('+', '-', '*', '/', '%', '<<', '>>', '&', '^', '|', '==', '!=', '<', '<=', '>', '>=', '&&', '||')
METHODS = [('sin', 0), ('mul_add', 2), ('powi', 1), ('recip', 0), ('hypot', 1), ('foo', 3), ('conv::<f64>', 0),
           ('cast::<u8,f64>', 1)]


def canon(e):
    """Without parentheses, with a negative literal written as a negation."""
    if e[0] == 'P':
        return canon(e[1])
    if e[0] in ('F', 'I') and e[1].startswith('-'):
        return ('U', '-', canon((e[0], e[1][1:], e[2])))
    if e[0] in ('F', 'I'):
        # an integer-valued result is displayed without a decimal point
        return ('N', Fraction(e[1]), e[2])
    return X.rebuild(e, [canon(c) for c in X.children(e)])


def show(e):
    return X.render(X.norm(e))


def envs(e, k=2):
    """A few assignments of the variables, fixed by their names."""
    vs = X.variables(e)
    r = []
    for i in range(k):
        r.append({v: X._hash_value('env', v, i) + Fraction(1, 10007) for v in vs})
    return r


def ok(tag, f, what):
    if tag == 'PANIC':
        raise Violation('%s panics: %s' % (what, f[0]))
    if tag != 'OK':
        raise Violation('%s is an error: %s' % (what, f[0]))
    return f


def two_forms(d, f, what):
    """The tree in memory and the tree that the displayed text parses to."""
    t = X.parse(f[0])
    tag, g = d.call('fromstr', f[1])
    if tag != 'OK':
        raise Violation('%s is displayed as %r, which does not parse' % (what, f[1]))
    return t, X.parse(g[0])


def same_value(e1, env1, e2, what, tol=None):
    """e1 (the reference, with the variables of env1 bound to values) and e2 have equal exact values."""
    for env in env1:
        try:
            a = X.exact(e1, env)
        except X.Undefined:
            continue
        try:
            b = X.exact(e2, env)
        except X.Undefined:
            raise Violation('%s divides by zero' % what)
        if tol is None:
            if a != b:
                raise Violation('%s has another value: %s instead of %s' % (what, b, a))
        elif abs(a - b) > tol * (1 + abs(a)):
            raise Violation('%s has another value: %s instead of %s' % (what, float(b), float(a)))


def small_lits():
    return st.one_of(X.int_lits(), X.float_lits(maxdigits=5))


def leaves(names=X.simple_names):
    return st.one_of(names.map(lambda n: ('V', n)), names.map(lambda n: ('V', n)), small_lits())


def trees(names=X.simple_names, max_leaves=10, binary=('+', '-', '*', '/'), unary=('-',), methods=METHODS):
    return X.exprs(leaves(names), unary=unary, binary=binary, methods=methods, max_leaves=max_leaves)


# ------------------------------------------------------------------ C08
def check_c08(ctx):
    ctx.rule('operators: a history of 1 to 6 applications of + - * / from the left or the right to an expression, '
             'operands random trees or literals. Non-trivial: at least one operand is an operation, so that grouping '
             'matters, or both operands are literals, so that the arithmetic is done.')
    d = build.get_driver()

    def history(case):
        start, steps = X.from_json(case[0]), [(o, s, X.from_json(e)) for o, s, e in case[1]]
        src = X.render(start)
        args = ['%s%s;;%s' % ({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[o], s, X.render(e))
                for o, s, e in steps]
        lit = ('F', 'I')
        # Reference tree; a literal folded with a literal is an exact number.
        ref, folded, rough = start, 0, False
        for o, s, e in steps:
            a, b = (ref, e) if s == 'r' else (e, ref)
            if a[0] in lit + ('Q',) and b[0] in lit + ('Q',):
                va, vb = ((x[1], x[2]) if x[0] == 'Q' else (X.lit_value(x), 0) for x in (a, b))
                if o == '/':
                    if abs(vb[0]) <= vb[1]:
                        return
                    rough = True
                folded += 1
                v, err = arith(o, va, vb)
                if o == '/':
                    # a quotient is rounded to about 100 digits
                    err += abs(v) / 10 ** 95 + Fraction(1, 10 ** 98)
                ref = ('Q', v, err)
            else:
                ref = ('O', o, a, b)
        nontrivial = folded > 0 or any(e[0] in 'OU' for _, _, e in steps) or start[0] in 'OU' or len(steps) > 1
        ctx.case('operators', [src, args], nontrivial, 'folding' if folded else 'symbolic')
        what = '%s followed by %s' % (src, args)
        f = ok(*d.call('pipe', src, *args), what)
        if ref[0] == 'Q':
            t = X.parse(f[0])
            if t[0] not in lit:
                raise Violation('%s: two literals give %s, not a literal' % (what, f[1]))
            v = X.lit_value(t)
            if abs(v - ref[1]) > ref[2]:
                raise Violation('%s is %s, exactly %s' % (what, v, ref[1]))
            return

        def subst_q(e):
            return e

        for t in two_forms(d, f, what):
            for env in envs(join(start, steps)):
                try:
                    a, err = exact_q(ref, env)
                except X.Undefined:
                    continue
                try:
                    b = X.exact(t, env)
                except X.Undefined:
                    raise Violation('%s divides by zero: %s' % (what, f[1]))
                if rough:
                    if abs(a - b) > err and not uninterpreted(ref):
                        raise Violation('%s gives %s: %s instead of %s' % (what, f[1], float(b), float(a)))
                elif a != b:
                    raise Violation('%s gives %s: value %s instead of %s' % (what, f[1], b, a))

    def join(start, steps):
        e = start
        for _, _, x in steps:
            e = ('O', '+', e, x)
        return e

    def arith(o, a, b):
        """Value and bound of the error of an operation on such pairs."""
        (a, ea), (b, eb) = a, b
        if o == '/':
            return a / b, (abs(a) * eb + abs(b) * ea) / (abs(b) * (abs(b) - eb))
        if o == '*':
            return a * b, abs(a) * eb + abs(b) * ea + ea * eb
        return (a + b if o == '+' else a - b), ea + eb

    def exact_q(e, env):
        if e[0] == 'Q':
            return e[1], e[2]
        if e[0] == 'O' and e[1] in '+-*/':
            a, b = exact_q(e[2], env), exact_q(e[3], env)
            if e[1] == '/' and abs(b[0]) <= b[1]:
                raise X.Undefined()
            return arith(e[1], a, b)
        return X.exact(e, env), 0

    def uninterpreted(e):
        if e[0] == 'Q':
            return False
        return any(k[0] in ('M', 'C', 'D', 'A') for k in X.walk(e) if k[0] != 'Q')

    operand = st.one_of(small_lits(), trees(max_leaves=5), trees(max_leaves=3))
    steps = st.lists(st.tuples(st.sampled_from('+-*/'), st.sampled_from('rl'), operand), min_size=1, max_size=6)
    ctx.prop('operators', st.tuples(operand, steps), history, ctx.n(2500, 60000))
    lsteps = st.lists(st.tuples(st.sampled_from('+-*/'), st.sampled_from('rl'), small_lits()), min_size=1, max_size=5)
    ctx.prop('literals', st.tuples(small_lits(), lsteps), history, ctx.n(2000, 40000))
    other = st.sampled_from([('B', 'true'), ('B', 'false'), ('L', '"text"'), ('L', '"1"'), ('L', "'1'"), ('L', "b'1'"), ('L', 'b"1"')])
    mixed = st.one_of(other, other, small_lits(), trees(max_leaves=3))
    osteps = st.lists(st.tuples(st.sampled_from('+-*/'), st.sampled_from('rl'), mixed), min_size=1, max_size=4)
    ctx.prop('other literals', st.tuples(mixed, osteps), history, ctx.n(400, 5000))


# ------------------------------------------------------------------ C09
def ref_subst(e, m):
    if e[0] == 'V':
        return m.get(e[1], e)
    return X.rebuild(e, [ref_subst(c, m) for c in X.children(e)])


def check_c09(ctx):
    ctx.rule('subst: random trees over operators, methods, fields and paths, with 0 to 4 bindings to random trees '
             '(swaps, self references, repeated names, names of no variable, negative numbers). Non-trivial: some '
             'binding occurs in the tree.')
    d = build.get_driver()
    names = st.sampled_from(['x', 'y', 'z', 'a', 'foo', 'sin', 'f64::consts::PI', 'consts::x', 'x::y'])
    paths = st.one_of(names, names, st.sampled_from(['<f64>::x', 'T::<u8>::x', 'x::<f64>', '::x', '::consts::x']))
    tree = X.exprs(leaves(paths), unary=('-', '!'), binary=ALL_BIN, methods=METHODS + [('x', 0), ('y', 1)],
                   fields=('x', 'y', '0'), max_leaves=10)
    values = st.one_of(leaves(names), X.exprs(leaves(paths), unary=('-',), binary=ALL_BIN, methods=METHODS,
                                              casts=('f32', 'u64'), max_leaves=5))

    def subst(case):
        e, binds = X.from_json(case[0]), [(n, X.from_json(v)) for n, v in case[1]]
        src = X.render(e)
        m = {}
        for n, v in binds:
            m.setdefault(n, v)
        used = [n for n in X.variables(e) if n in m]
        ctx.case('subst', [src, [[n, X.render(v)] for n, v in binds]], bool(used), '%d bound' % min(len(used), 3))
        arg = ';;'.join(['subst'] + [s for n, v in binds for s in (n, X.render(v))])
        what = '%s with %s' % (src, [(n, X.render(v)) for n, v in binds])
        f = ok(*d.call('pipe', src, arg), 'subst of ' + what)
        want = canon(ref_subst(e, m))
        for t in two_forms(d, f, 'subst of ' + what):
            if canon(t) != want:
                raise Violation('subst of %s is %s' % (what, f[1]))
        if not used and X.parse(f[0]) != X.parse(d.call('pipe', src)[1][0]):
            raise Violation('subst of %s binds nothing but changes it to %s' % (what, f[1]))

    binds = st.lists(st.tuples(names, values), min_size=0, max_size=4)
    ctx.prop('subst', st.tuples(tree, binds), subst, ctx.n(3000, 60000))

    def numbers(case):
        e, binds = X.from_json(case[0]), [(n, v) for n, v in case[1]]
        src = X.render(e)
        m = {}
        for n, v in binds:
            m.setdefault(n, ('F', v, ''))
        used = [n for n in X.variables(e) if n in m]
        ctx.case('numbers', [src, binds], bool(used))
        arg = ';;'.join(['substbd'] + [s for n, v in binds for s in (n, v)])
        what = '%s with the numbers %s' % (src, binds)
        f = ok(*d.call('pipe', src, arg), 'subst of ' + what)
        env = {n: Fraction(v[1]) for n, v in m.items()}
        for i in range(2):
            full = {v: X._hash_value('env', v, i) for v in X.variables(e)}
            full.update(env)
            try:
                a = X.exact(e, full)
            except X.Undefined:
                continue
            for t in two_forms(d, f, 'subst of ' + what):
                b = X.exact(t, full)
                if a != b:
                    raise Violation('subst of %s is %s, with value %s instead of %s' % (what, f[1], b, a))

    num = st.tuples(st.sampled_from(['', '-']), X.float_lits(maxdigits=6, exps=False)).map(lambda t: t[0] + t[1][1])
    ctx.prop('numbers', st.tuples(trees(), st.lists(st.tuples(X.simple_names, num), min_size=1, max_size=3)),
             numbers, ctx.n(1500, 30000))


# ------------------------------------------------------------------ C10
def terms_of(e, neg=False):
    """The distributive expansion: an ordered list of (negative?, factors)."""
    if e[0] == 'P':
        return terms_of(e[1], neg)
    if e[0] == 'O' and e[1] in '+-':
        return terms_of(e[2], neg) + terms_of(e[3], neg != (e[1] == '-'))
    if e[0] == 'O' and e[1] == '*':
        l, r = terms_of(e[2], neg), terms_of(e[3], False)
        return [(a[0] != b[0], a[1] + b[1]) for a in l for b in r]
    if e[0] == 'U':
        return terms_of(e[2], not neg)
    return [(neg, [e])]


def flat_sum(e):
    """The terms of a sum that is written without parentheses, or None."""
    if e[0] == 'O' and e[1] in '+-':
        l, r = flat_sum(e[2]), flat_product(e[3])
        if l is None or r is None:
            return None
        return l + [(r[0] != (e[1] == '-'), r[1])]
    p = flat_product(e)
    return None if p is None else [p]


def flat_product(e):
    if e[0] == 'O' and e[1] == '*':
        l, r = flat_product(e[2]), flat_product(e[3])
        if l is None or r is None:
            return None
        return (l[0] != r[0], l[1] + r[1])
    if e[0] == 'U' and e[1] == '-':
        p = flat_product(e[2])
        return None if p is None else (not p[0], p[1])
    if e[0] in ('V', 'F', 'I', 'M'):
        return (False, [e])
    return None


def check_c10(ctx):
    ctx.rule('value: random trees over + - * / negation and other operators and methods; polynomial: trees over + - * '
             'and negated sums, whose complete expansion is known. Non-trivial: a product or difference of a '
             'parenthesised sum.')
    d = build.get_driver()

    def interesting(e):
        return any(k[0] == 'O' and k[1] in '*-' and any(c[0] == 'P' for c in k[2:]) or k[0] == 'U' and k[2][0] == 'P'
                   for k in X.walk(e))

    def count_terms(e):
        if e[0] == 'P':
            return count_terms(e[1])
        if e[0] == 'O' and e[1] in '+-':
            return count_terms(e[2]) + count_terms(e[3])
        if e[0] == 'O' and e[1] == '*':
            return count_terms(e[2]) * count_terms(e[3])
        if e[0] == 'U':
            return count_terms(e[2])
        return 1

    def outer_cast(e):
        # Casts are supported only as operands of an operator.
        if e[0] == 'A':
            return True
        return e[0] in 'PMD' and any(outer_cast(c) for c in X.children(e))

    def value(case):
        e = X.from_json(case)
        if count_terms(e) > 300:
            return
        src = X.render(e)
        ctx.case('value', src, interesting(e))
        tag, f = d.call('pipe', src, 'expand')
        if tag == 'ERR' and outer_cast(e):
            return
        f = ok(tag, f, 'expand of ' + src)
        for t in two_forms(d, f, 'expand of ' + src):
            same_value(e, envs(e), t, 'expand of %s: %s' % (src, f[1]))

    ctx.prop('value', trees(max_leaves=9), value, ctx.n(2500, 50000))
    # Other operators, methods and casts are kept as they are. (Negation of an integer operation is exact here.)
    other = X.exprs(leaves(), unary=('-',), binary=('+', '-', '*', '/', '%', '<<', '&', '|', '^'), methods=METHODS,
                    casts=('f64', 'u8'), fields=('x',), max_leaves=9)
    ctx.prop('other', other, value, ctx.n(2000, 40000))

    def polynomial(case):
        e = X.from_json(case)
        if count_terms(e) > 300:
            return
        src = X.render(e)
        ctx.case('polynomial', src, interesting(e), '%d terms' % min(9, count_terms(e)))
        f = ok(*d.call('pipe', src, 'expand'), 'expand of ' + src)
        want = [(n, [canon(x) for x in fs]) for n, fs in terms_of(e)]
        for t in two_forms(d, f, 'expand of ' + src):
            while t[0] == 'P':      # of the whole expression
                t = t[1]
            got = flat_sum(t)
            if got is None:
                raise Violation('expand of %s is not expanded: %s' % (src, f[1]))
            got = [(n, [canon(x) for x in fs]) for n, fs in got]
            key = lambda x: repr((x[0], sorted(map(repr, x[1]))))
            if sorted(got, key=key) != sorted(want, key=key) and sorted(map(key, got)) != sorted(map(key, want)):
                raise Violation('expand of %s is %s: other terms than %s' % (src, f[1], want))

    leaf = st.one_of(X.simple_names.map(lambda n: ('V', n)), X.simple_names.map(lambda n: ('V', n)),
                     st.integers(0, 9).map(lambda i: ('I', str(i), '')))
    poly = X.exprs(leaf, unary=('-',), binary=('+', '-', '*'), max_leaves=9)
    ctx.prop('polynomial', poly, polynomial, ctx.n(2000, 40000))

    # Negation: of sums and of terms of sums.
    def negsum(case):
        polynomial(X.norm(('U', '-', X.from_json(case[0]))) if case[1] else X.from_json(case[0]))

    ctx.prop('negated sum', st.tuples(poly, st.booleans()), negsum, ctx.n(800, 15000))


# ------------------------------------------------------------------ C11
def ref_paren(e):
    ch = [ref_paren(c) for c in X.children(e)]
    if e[0] in 'OU':
        ch = [('P', c) if c[0] in 'OU' else c for c in ch]
    return X.rebuild(e, ch)


def check_c11(ctx):
    ctx.rule('paren: random trees over all operators, negation, not, methods, fields and parentheses. Non-trivial: an '
             'operation is an operand without parentheses.')
    d = build.get_driver()
    names = st.sampled_from(['x', 'y', 'z', 'f64::consts::PI'])
    tree = X.exprs(st.one_of(leaves(names), st.sampled_from([('B', 'true'), ('L', '"text"')])), unary=('-', '!', '*'),
                   binary=ALL_BIN, methods=METHODS, fields=('x', '0'), max_leaves=12)

    def paren(case):
        e = X.from_json(case)
        src = X.render(e)
        want = ref_paren(e)
        ctx.case('paren', src, want != e)
        f = ok(*d.call('pipe', src, 'paren'), 'paren of ' + src)
        if d.noise:
            raise Violation('paren of %s prints %r' % (src, d.noise[:3]))
        for t in two_forms(d, f, 'paren of ' + src):
            if canon(t) != canon(e):
                raise Violation('paren of %s changes its meaning: %s' % (src, f[1]))
            if t != X.parse(d.call('pipe', X.render(want))[1][0]):
                raise Violation('paren of %s is %s, not %s' % (src, f[1], X.render(want)))
        g = ok(*d.call('pipe', src, 'paren', 'paren'), 'paren')
        if g[0] != f[0]:
            raise Violation('paren twice of %s is %s, once %s' % (src, g[1], f[1]))

    ctx.prop('paren', tree, paren, ctx.n(3000, 60000))


# ------------------------------------------------------------------ C15
UNSUPPORTED = ['f(x)', 'f(x, 1)', 'a[0]', '|x| x', '{ x }', 'if a { b } else { c }', 'x as f64', '&x', '[1, 2]',
               '(x, y)', '0..x', 'foo!(x)', 'return x', 'match x { _ => 1 }', 'S { a: x }', 'x = y', 'x += 1',
               'unsafe { x }', 'loop { }', 'x?', '[x; 3]', '..', 'while x { }', 'break', '(x,)', '()']


def check_c15(ctx):
    ctx.rule('identity: transformations that have nothing to do return supported expressions unchanged; unsupported: a '
             'random supported tree with one unsupported construct at a random place; anything: random syntax, '
             'transformed without panicking. Non-trivial: a tree of at least three nodes.')
    d = build.get_driver()
    names = st.sampled_from(['x', 'y', 'PI', 'f64::consts::PI', 'a::b', '<f64>::x', 'T::<u8>::y', '::a'])
    lits = st.one_of(small_lits(), st.sampled_from([('B', 'true'), ('B', 'false'), ('L', '"text"'), ('L', "'c'"),
                                                    ('I', '1', 'u8'), ('F', '1.5', 'f32'), ('I', '7', 'i64')]))
    base = st.one_of(names.map(lambda n: ('V', n)), lits)
    tree = X.exprs(base, unary=('-', '!', '*'), binary=ALL_BIN, methods=METHODS, fields=('x', '0'), max_leaves=12)

    def identity(case):
        e = X.from_json(case)
        src = X.render(e)
        ctx.case('identity', src, X.size(e) >= 3)
        want = ok(*d.call('pipe', src), 'parsing')[0]
        for step in ('collect;;x', 'subst', 'subst;;nowhere;;1 + 1', 'numtype;;decimal;;16', 'numtype;;other;;64'):
            f = ok(*d.call('pipe', src, step), '%s of %s' % (step, src))
            if f[0] != want:
                raise Violation('%s changes %s to %s' % (step, src, f[1]))

    ctx.prop('identity', tree, identity, ctx.n(1500, 30000))

    def plant(e, path, bad):
        ch = X.children(e)
        if not ch or not path:
            return ('X', '(' + bad + ')')
        i = path[0] % len(ch)
        return X.rebuild(e, [plant(c, path[1:], bad) if j == i else c for j, c in enumerate(ch)])

    def unsupported(case):
        e, path, bad = X.from_json(case[0]), case[1], case[2]
        src = X.render(plant(e, path, bad))
        ctx.case('unsupported', [src], X.size(e) >= 3, bad)
        steps = ['collect;;x', 'subst;;x;;1', 'paren', 'numtype;;decimal;;32']
        if all(k[0] != 'M' for k in X.walk(e)):     # a power may take for ever
            steps.append('eval;;20')
        for step in steps:
            tag, f = d.call('pipe', src, step)
            if tag != 'ERR':
                raise Violation('%s of %s, which has an unsupported construct, is %s %s' % (step, src, tag, f[:2]))

    path = st.lists(st.integers(0, 3), max_size=4)
    plain = X.exprs(leaves(), max_leaves=8)
    ctx.prop('unsupported', st.tuples(st.one_of(tree, plain), path, st.sampled_from(UNSUPPORTED)), unsupported, ctx.n(1500, 30000))

    def anything(case):
        e, path, bad = X.from_json(case[0]), case[1], case[2]
        src = X.render(plant(e, path, bad))
        ctx.case('anything', [src], X.size(e) >= 3)
        tag, f = d.call('pipe', src, 'expand')
        if tag == 'PANIC':
            raise Violation('expand of %s panics: %s' % (src, f[0]))
        for k in ('f64', 'f32', 'bd'):
            tag, f = d.call('to', k, src)
            if tag == 'PANIC':
                raise Violation('conversion of %s to %s panics: %s' % (src, k, f[0]))
            plain = re.sub(r'[\s_]', '', src)
            if tag == 'OK' and not re.match(r'^[0-9]', plain):
                raise Violation('%s converts to %s: %s' % (src, k, f[0]))

    ctx.prop('anything', st.tuples(tree, path, st.sampled_from(UNSUPPORTED)), anything, ctx.n(800, 15000))


# ------------------------------------------------------------------ C16
def check_c16(ctx):
    ctx.rule('parse: random trees of every supported kind, rendered with random spacing and redundant parentheses; '
             'garbage: random texts; lists: variable lists with repeated names. Non-trivial: an operation whose '
             'operand is an operation, or a repeated name.')
    d = build.get_driver()
    names = st.sampled_from(['x', 'y', 'zz', 'PI', 'f64::consts::PI', 'a::b', '_t1'])
    paths = st.one_of(names, st.sampled_from(['<f64>::x', 'T::<u8>::y', '::a', 'r#type']))
    base = st.one_of(paths.map(lambda n: ('V', n)), small_lits(), X.float_lits(suffixes=('', 'f32', 'f64')),
                     X.int_lits(suffixes=('', 'u32', 'i64')))
    tree = X.exprs(base, unary=('-', '!'), binary=ALL_BIN, methods=METHODS, calls=[('f', 1), ('g', 2)],
                   fields=('x', '0'), casts=('f64', 'u32'), max_leaves=12)

    def space(src, k):
        # spacing between tokens does not matter
        toks = re.findall(r'r#\w+|[A-Za-z_][A-Za-z_0-9]*|\d[\d.]*(?:e-?\d+)?(?:[uif]\d+)?|==|!=|<=|>=|&&|\|\||<<|>>|::|.', src)
        toks = [t for t in toks if not t.isspace()]
        sep = [' ', '\n', ' /* c */ ', '\t'][k]
        return sep.join(toks)

    def parse(case):
        e, k = X.from_json(case[0]), case[1]
        src = X.render(e)
        text = src if k == 4 else space(src, k)
        ctx.case('parse', text, X.size(e) >= 4)
        f = ok(*d.call('fromstr', text), 'parsing %r' % text)
        if X.parse(f[0]) != e:
            raise Violation('%r is parsed as %s' % (text, f[0]))
        g = ok(*d.call('fromstr', f[1]), 'parsing the display %r of %r' % (f[1], text))
        if g[0] != f[0]:
            raise Violation('%r is displayed as %r, which is another expression' % (text, f[1]))
        p = ok(*d.call('preds', text), 'predicates of ' + text)
        want = ['true' if e[0] in 'FIBL' else 'false', 'true' if e[0] in 'FI' else 'false']
        if p != want:
            raise Violation('is_lit, is_numeric of %s are %s, not %s' % (text, p, want))

    ctx.prop('parse', st.tuples(tree, st.integers(0, 4)), parse, ctx.n(2500, 50000))

    bad = ['', 'x +', '/ x', '(x', 'x)', '1 2', 'x y', '+ x', 'x.', '(x))', 'let', 'fn', 'x,', '"abc', 'x;',
           '@', '#', '$x', '\\', 'a b c', ')(', ']', '}', 'as f32', '1 1']

    def garbage(case):
        ctx.case('garbage', case, True)
        tag, f = d.call('fromstr', case)
        if tag == 'PANIC':
            raise Violation('parsing %r panics: %s' % (case, f[0]))
        if case in bad and tag != 'ERR':
            raise Violation('%r is accepted as %s' % (case, f))
        if tag == 'OK':
            g = d.call('fromstr', f[1])
            if g[0] != 'OK' or g[1][0] != f[0]:
                raise Violation('%r is displayed as %r, which is another expression' % (case, f[1]))

    ctx.fixed('garbage', bad, garbage)
    # Plain texts only: the grammar beyond them is syn's.
    ctx.prop('garbage', st.text('xy12.+-*/() ', max_size=12), garbage, ctx.n(1500, 30000))

    def lists(case):
        key, binds = case[0], [(n, X.from_json(v)) for n, v in case[1]]
        ctx.case('lists', [key, [[n, X.render(v)] for n, v in binds]], len({n for n, _ in binds}) < len(binds))
        args = [s for n, v in binds for s in (n, X.render(v))]
        f = ok(*d.call('varfind', key, *args), 'variable list')
        want = next((v for n, v in binds if n == key), None)
        got = None if f[0] == 'NONE' else X.parse(f[0])
        if got != want:
            raise Violation('%s in %s is %s' % (key, args, f[0]))
        shown = 'vars!(' + ', '.join('%s = %s' % (d.call('fromstr', n)[1][1], d.call('fromstr', X.render(v))[1][1])
                                     for n, v in binds) + ')'
        if f[1] != shown:
            raise Violation('the list %s is displayed as %s' % (shown, f[1]))

    ctx.prop('lists', st.tuples(names, st.lists(st.tuples(names, trees(max_leaves=4)), max_size=6)), lists,
             ctx.n(1000, 10000))


# ------------------------------------------------------------------ C44
MACRO_MAIN = """#![allow(warnings)]
use doctor_syn::*;
fn parsed(s: &str) -> Expression { s.parse().unwrap() }
fn path(s: &str) -> Name { Name::from(syn::parse_str::<syn::Path>(s).unwrap()) }
fn say(ok: bool, what: &str) { if !ok { println!("{}", what) } }
fn main() {
%s
}
"""


def check_c44(ctx):
    ctx.rule('macros: programs of 30 uses of expr!, name! and vars!, with random trees, paths and lists of bindings, compiled: the expressions and '
             'names are those parsed from the text, and the lists hold the bindings in order, each found by its name. Counted are the uses. '
             'Non-trivial: an operation in an operation, a path of several names, a list of two or more.')
    rlib = build.doctor_syn_rlib()
    names = ['x', 'y', 'zz', '_t1', 'PI', 'r#type']
    paths = st.sampled_from(names + ['f64::consts::PI', 'a::b', '::a'])
    base = st.one_of(paths.map(lambda n: ('V', n)), small_lits(), X.float_lits(suffixes=('', 'f32', 'f64')), X.int_lits(suffixes=('', 'u32', 'i64')))
    tree = X.exprs(base, unary=('-', '!'), binary=ALL_BIN, methods=METHODS, calls=[('f', 1), ('g', 2)], fields=('x', 'y0'), casts=('f64', 'u32'), max_leaves=10)
    use = st.one_of(tree.map(lambda e: ['expr', e]), tree.map(lambda e: ['expr', e]), paths.map(lambda p: ['name', p]),
                    st.lists(st.tuples(st.sampled_from(names), X.exprs(base, unary=('-',), binary=('+', '*', '-'), max_leaves=4)), max_size=4).map(lambda b: ['vars', b]))
    quote = lambda t: 'r####"%s"####' % t

    def macros(case):
        lines = []
        for kind, v in case:
            if kind == 'expr':
                e = X.from_json(v)
                src, nontrivial = X.render(e), X.size(e) >= 4
                lines.append('say(expr!(%s) == parsed(%s) && expr!(%s).to_string() == parsed(%s).to_string(), %s);' % (src, quote(src), src, quote(src), quote('expr!(%s)' % src)))
            elif kind == 'name':
                src, nontrivial = v, '::' in v
                lines.append('say(name!(%s) == path("%s") && name!(%s).to_string() == path("%s").to_string(), "name!(%s)");' % (v, v, v, v, v))
            else:
                binds = [(n, X.render(X.from_json(e))) for n, e in v]
                src, nontrivial = ', '.join('%s = %s' % b for b in binds), len(binds) > 1
                shown = ', '.join('%s = {}' % n for n, _ in binds)
                conds = ['l.to_string() == format!("vars!(%s)"%s)' % (shown, ''.join(', parsed(%s)' % quote(t) for _, t in binds))]
                for n in names:
                    t = next((t for m, t in binds if m == n), None)
                    conds.append('l.find(&path("%s")) == %s' % (n, 'None' if t is None else 'Some(parsed(%s))' % quote(t)))
                lines.append('{ let l: VariableList = vars!(%s); say(%s, %s); }' % (src, ' && '.join(conds), quote('vars!(%s)' % src)))
            ctx.case('macros', [kind, src], nontrivial, kind)
        d = build.scratch_dir('c44')
        src = build.write(os.path.join(d, 'm.rs'), MACRO_MAIN % '\n'.join(lines))
        r = build.rustc(src, os.path.join(d, 'm'), opt=False, extra=['-L', 'dependency=' + os.path.dirname(rlib), '--extern', 'doctor_syn=' + rlib])
        try:
            if r.returncode:
                raise Violation('macros do not compile: %s\n%s' % (r.stderr.decode('utf-8', 'replace')[:1500], '\n'.join(lines)[:1500]))
            p = subprocess.run([os.path.join(d, 'm')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            bad = p.stdout.decode('utf-8', 'replace').split('\n')[0]
            if bad or p.returncode:
                raise Violation('not what its text is: %s' % (bad or p.stderr.decode('utf-8', 'replace')[:500]))
        finally:
            shutil.rmtree(d, True)

    ctx.prop('macros', st.lists(use, min_size=15, max_size=30), macros, ctx.n(16, 300))


# ------------------------------------------------------------------ C17
OPS = ['<<=', '>>=', '...', '..=', '->', '=>', '::', '==', '!=', '<=', '>=', '&&', '||', '<<', '>>', '+=', '-=', '*=',
       '/=', '%=', '^=', '&=', '|=', '..']


def tokens_of(dump):
    """Idents, literals, delimiters and operators of a dump (see the driver)."""
    out, run, joint = [], '', False

    def flush():
        nonlocal run
        i = 0
        while i < len(run):
            for o in OPS:
                if run.startswith(o, i):
                    out.append(o)
                    i += len(o)
                    break
            else:
                out.append(run[i])
                i += 1
        run = ''

    for t in dump.split('\x01'):
        if not t:
            continue
        j = t.endswith('\x02')
        c = t[:-1] if j else t
        punct = len(c) == 1 and c in "+-*/%^!&|=<>@.,;:#$?~'"
        if not punct:
            flush()
            out.append(c)
            continue
        run += c
        if c == "'":
            flush()
            continue
        if not j:
            flush()
    flush()
    return out


def check_c17(ctx):
    ctx.rule('tokens: random streams of identifiers, numbers, strings, lifetimes, operators and nested groups; items: '
             'random Rust functions with nested blocks; generated: the real output of the generator for random '
             'selections. Non-trivial: a group, or two punctuation marks in a row.')
    d = build.get_driver()

    def same(src, what):
        tag, f = d.call('fmt', src)
        if tag == 'PANIC':
            raise Violation('formatting %s panics: %s' % (what, f[0]))
        if f[2].startswith('LEXERROR'):
            raise Violation('the formatted text of %s is not valid Rust tokens: %r' % (what, f[0]))
        a, b = tokens_of(f[1]), tokens_of(f[2])
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            raise Violation('the formatted text of %s has other tokens: %s became %s in %r' % (
                what, a[max(0, i - 3):i + 4], b[max(0, i - 3):i + 4], f[0][:1500]))
        return f[0]

    punct = st.sampled_from(list('+-*/%^!&|=<>@.,;:#$?~') + OPS)
    atom = st.one_of(st.sampled_from(['x', 'yy', 'fn', 'let', 'r#type', '_', 'f64', 'A1']),
                     st.sampled_from(['1', '1.5', '2.0e-3', '0x1F', '1u32', '1.5f32', '"a b"', '"\\n{"', "'c'", 'b"x"',
                                      '1.0', '7', '"//"', "'\\''"]),
                     st.sampled_from(["'a ", "'static "]), punct, punct, punct)
    tree = st.recursive(atom, lambda s: st.tuples(st.sampled_from(['()', '[]', '{}']), st.lists(s, max_size=6)),
                        max_leaves=25)
    stream = st.lists(tree, max_size=12)

    def text(t):
        if isinstance(t, str):
            return t
        return t[0][0] + ' '.join(text(x) for x in t[1]) + t[0][1]

    def tokens(case):
        src = ' '.join(text(t) for t in case)
        has_group = any(not isinstance(t, str) for t in case)
        ctx.case('tokens', src, has_group or len(case) > 2, 'groups' if has_group else 'flat')
        same(src, repr(src))

    ctx.prop('tokens', stream, tokens, ctx.n(4000, 80000))

    ident = st.sampled_from(['x', 'y', 'a1', 'foo'])
    ty = st.sampled_from(['fty', 'u32', '&mut [f64]', 'Vec<Vec<u8>>', "&'a str", '(f32, f32)', 'impl Fn(u8) -> u8'])
    expr = X.exprs(leaves(), unary=('-', '!', '&', '*'), binary=ALL_BIN, methods=METHODS, calls=[('f', 2)],
                   casts=('f64',), fields=('x',), max_leaves=6).map(X.render)
    stmt = st.recursive(
        st.one_of(st.tuples(ident, ty, expr).map(lambda t: 'let %s: %s = %s;' % t),
                  st.tuples(ident, expr).map(lambda t: '%s = %s;' % t), expr.map(lambda e: e + ';'),
                  expr.map(lambda e: 'return %s;' % e), st.just('assert!(x == 1, "a {} b", y);'),
                  st.just('let c = |x: u8| -> u8 { x + 1 };'), st.just('x -= -1; y >>= 2;')),
        lambda s: st.one_of(
            st.tuples(expr, st.lists(s, max_size=3), st.lists(s, max_size=3)).map(
                lambda t: 'if (%s) { %s } else { %s }' % (t[0], ' '.join(t[1]), ' '.join(t[2]))),
            st.tuples(ident, st.lists(s, max_size=3)).map(lambda t: 'for %s in 0..=10 { %s }' % (t[0], ' '.join(t[1]))),
            st.lists(s, max_size=3).map(lambda l: 'f({ %s });' % ' '.join(l)),
            st.lists(s, max_size=3).map(lambda l: 'while x < y && !z { %s }' % ' '.join(l)),
            st.lists(s, max_size=2).map(lambda l: 'match x { 1 | 2 => { %s } _ => (), }' % ' '.join(l))),
        max_leaves=8)
    item = st.one_of(
        st.tuples(ident, st.lists(stmt, max_size=4)).map(
            lambda t: '#[inline] pub fn %s<\'a>(x: u8, y: &\'a str) -> fty { %s }' % (t[0], ' '.join(t[1]))),
        st.tuples(ident, expr).map(lambda t: 'const %s: fty = %s;' % t),
        st.lists(stmt, max_size=3).map(lambda l: 'mod m { impl T for S { fn f(self) { %s } } }' % ' '.join(l)),
        st.just('#![allow(dead_code)]'), st.just('use super::{a, b::*};'), st.just('type fty = f64;'),
        st.just('struct S<T: Clone> where T: Copy { a: T, b: u8 }'))

    def items(case):
        src = ' '.join(case)
        ctx.case('items', src, '{' in src)
        same(src, repr(src))

    ctx.prop('items', st.lists(item, min_size=1, max_size=4), items, ctx.n(1500, 30000))

    def generated(case):
        g = build.libmgen(build.gen_args(case[0], case[1], exclude='qnorm', number_type=case[2], language=case[3]))
        if g.code != 0:
            return
        ctx.case('generated', case, True)
        same(g.out, 'the output for %s' % case)

    ctx.fixed('generated', [['all', 32, 'decimal', 'rust'], ['all', 64, 'hex', 'rust'],
                            ['all', 32, 'hex', 'portable-simd']], generated)


CHECKS = {'C08': check_c08, 'C09': check_c09, 'C10': check_c10, 'C11': check_c11, 'C15': check_c15, 'C16': check_c16,
          'C17': check_c17, 'C44': check_c44}
