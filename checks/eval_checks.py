"""C01-C06: arbitrary-precision evaluation."""
import struct
from fractions import Fraction

import mpmath
from hypothesis import strategies as st

import build
import expr as X
from common import Violation

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


mp = mpmath.mp
mp.dps = 140


def frac(s):
    return Fraction(s)


def mpf(fr):
    return mpmath.mpf(fr.numerator) / fr.denominator


def fmt(fr):
    """A Fraction with a finite decimal expansion as plain decimal text."""
    s = '-' if fr < 0 else ''
    fr = abs(fr)
    d = 0
    n = fr
    while n.denominator != 1:
        n *= 10
        d += 1
        assert d < 2000
    t = str(n.numerator)
    if d == 0:
        return s + t
    t = t.rjust(d + 1, '0')
    return s + t[:-d] + '.' + t[-d:]


def lit(text):
    """Source of a decimal, negative ones in parentheses."""
    return '(%s)' % text if text.startswith('-') else text


def value_of(tag, fields, what):
    if tag == 'PANIC':
        raise Violation('%s panics: %s' % (what, fields[0]))
    if tag == 'ERR':
        raise Violation('%s gives an error: %s' % (what, fields[0]))
    e = X.parse(fields[0])
    if e[0] not in ('F', 'I', 'B'):
        raise Violation('%s is not a value: %s' % (what, fields[1]))
    return e


# ------------------------------------------------------------------ C01
class Unclear(Exception):
    pass


def bounds(e, h):
    """(exact value, bound on the error that n-digit rounding of products and quotients may cause)"""
    k = e[0]
    if k in ('F', 'I'):
        return X.lit_value(e), Fraction(0)
    if k == 'P':
        return bounds(e[1], h)
    if k == 'U':
        v, d = bounds(e[2], h)
        return -v, d
    a, da = bounds(e[2], h)
    b, db = bounds(e[3], h)
    o = e[1]
    if o == '+':
        return a + b, da + db
    if o == '-':
        return a - b, da + db
    if o == '*':
        return a * b, abs(a) * db + abs(b) * da + da * db + h
    if abs(b) <= db * 2 or b == 0:
        raise Unclear()
    q = a / b
    return q, (da + abs(q) * db) / (abs(b) - db) + h + abs(q) * Fraction(1, 10 ** 97)


@check('C01')
def c01(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis generates trees of decimal and integer literals under + - * / unary minus and parentheses, '
             'a digit count 0..60 and a comparison; the value from eval is compared with exact rational arithmetic, '
             'products and quotients being allowed half a unit of the last place each. Non-trivial: at least one '
             'binary operator; distinct by source text and digit count.')
    leaves = st.one_of(X.float_lits(), X.int_lits(), X.float_lits(maxdigits=50))
    trees = X.exprs(leaves, max_leaves=9)
    digits = st.one_of(st.sampled_from([0, 1, 2, 20, 40]), st.integers(0, 60))

    def arith(case):
        e, n = X.from_json(case[0]), case[1]
        h = Fraction(1, 2 * 10 ** n)
        try:
            v, err = bounds(e, h)
        except Unclear:
            return
        src = X.render(e)
        ctx.case('arith', [src, n], any(k[0] == 'O' for k in X.walk(e)),
                 'div' if any(k[0] == 'O' and k[1] == '/' for k in X.walk(e)) else 'nodiv')
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        if r[0] == 'B':
            raise Violation('eval of %s is a boolean' % src)
        got = frac(r[1])
        if abs(got - v) > err:
            raise Violation('eval(%d) of %s is %s, the exact value is %s, allowed error %.3e' % (
                n, src, r[1], mpmath.nstr(mpf(v), 70), float(err)))

    ctx.prop('arith', st.tuples(trees, digits), arith, ctx.n(2500, 40000))

    def single(case):
        a, b, op, n = case
        src = '%s %s %s' % (lit(a), op, lit(b))
        x, y = frac(a), frac(b)
        if op == '/' and y == 0:
            return
        ctx.case('single', case, True, op)
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        lim = 0 if op in '+-' else Fraction(1, 2 * 10 ** n) + abs(v) * Fraction(1, 10 ** 97)
        if abs(frac(r[1]) - v) > lim:
            raise Violation('eval(%d) of %s is %s, exactly %s' % (n, src, r[1], mpmath.nstr(mpf(v), 70)))

    decs = st.builds(lambda neg, m, s: fmt(Fraction(-m if neg else m, 10 ** s)),
                     st.booleans(), st.one_of(st.integers(0, 20), st.integers(0, 10 ** 9), st.integers(0, 10 ** 40)),
                     st.integers(0, 45))
    ctx.prop('single', st.tuples(decs, decs, st.sampled_from('+-*/'), digits), single, ctx.n(2500, 40000))

    def compare(case):
        ea, eb, op, n = X.from_json(case[0]), X.from_json(case[1]), case[2], case[3]
        h = Fraction(1, 2 * 10 ** n)
        try:
            va, da = bounds(ea, h)
            vb, db = bounds(eb, h)
        except Unclear:
            return
        if da + db > 0 and abs(va - vb) <= da + db:
            return
        src = X.render(X.norm(('O', op, ea, eb)))
        ctx.case('compare', [src, n], True, op)
        want = {'<': va < vb, '>': va > vb, '<=': va <= vb, '>=': va >= vb, '==': va == vb, '!=': va != vb}[op]
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        if r != ('B', 'true' if want else 'false'):
            raise Violation('eval(%d) of %s is %s' % (n, src, r[1]))

    small = X.exprs(st.one_of(X.float_lits(exps=False), X.int_lits()), max_leaves=4)
    def near(m, s, places, step):
        x = Fraction(m, 10 ** s)
        return lit_node(x), lit_node(x + Fraction(step, 10 ** max(places, s)))

    def lit_node(x):
        t = fmt(abs(x))
        e = ('F', t, '') if '.' in t else ('I', t, '')
        return ('U', '-', e) if x < 0 else e

    pair = st.one_of(st.tuples(small, small), small.map(lambda e: (e, e)), small.map(lambda e: (e, ('P', e))),
                     # equal values with different trailing zeros
                     st.tuples(st.integers(0, 99), st.integers(0, 5)).map(
                         lambda t: (('I', str(t[0]), ''), ('F', '%d.%s' % (t[0], '0' * (t[1] + 1)), ''))),
                     # values that differ only after more places than the digit count
                     st.builds(near, st.integers(-10 ** 6, 10 ** 6), st.integers(0, 6), st.integers(0, 80), st.sampled_from([-1, 1, 5, -7])))
    ctx.prop('compare', st.tuples(pair, st.sampled_from(['<', '>', '<=', '>=', '==', '!=']), digits).map(
        lambda t: (t[0][0], t[0][1], t[1], t[2])), compare, ctx.n(1500, 20000))


# ------------------------------------------------------------------ C02
def dec_in(lo, hi, places=None):
    """Decimals of the interval, as text."""
    lo, hi = Fraction(str(lo)), Fraction(str(hi))

    @st.composite
    def mk(draw):
        s = draw(st.one_of(st.integers(0, 3), st.integers(0, 30))) if places is None else draw(st.integers(0, places))
        a, b = lo * 10 ** s, hi * 10 ** s
        a = -((-a.numerator) // a.denominator)
        b = b.numerator // b.denominator
        if a > b:
            return fmt(lo)
        return fmt(Fraction(draw(st.integers(a, b)), 10 ** s))
    return mk()


def log_dec(emin, emax):
    """Positive decimals over many magnitudes."""
    @st.composite
    def mk(draw):
        e = draw(st.integers(emin, emax))
        m = draw(st.integers(1, 9999999))
        k = len(str(m))
        f = Fraction(m, 10 ** (k - 1)) * Fraction(10) ** e
        return fmt(f)
    return mk()


def tol(fn, n, x, ref):
    """Error allowed to an n-digit evaluation."""
    u = mpmath.mpf(10) ** (-n)
    a = [mpf(frac(t)) for t in x]
    if fn in ('sin', 'cos', 'asin', 'acos', 'atan', 'abs', 'signum'):
        return 3 * u
    if fn == 'exp':
        return u
    if fn == 'tan':
        return (1 + ref * ref) * 3 * u
    if fn == 'ln':
        return (1 + abs(ref)) * u
    if fn == 'log':
        lb = abs(mpmath.log(a[1]))
        la = abs(mpmath.log(a[0]))
        return ((1 + la) / lb + la * (1 + lb) / lb ** 2) * 2 * u
    if fn == 'log2':
        return (1 + abs(ref)) * 4 * u
    if fn == 'log10':
        return (1 + abs(ref)) * 4 * u
    if fn in ('powf', 'powi'):
        return (ref * abs(a[1]) * (1 + abs(mpmath.log(a[0]))) + 1) * 2 * u
    if fn == 'exp2':
        return (ref * abs(a[0]) + 1) * 2 * u
    if fn in ('sqrt', 'recip'):
        return abs(ref) * mpmath.mpf(10) ** -90
    raise KeyError(fn)


REF = {
    'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos,
    'atan': mpmath.atan, 'exp': mpmath.exp, 'ln': mpmath.log, 'log': lambda x, b: mpmath.log(x) / mpmath.log(b),
    'log2': lambda x: mpmath.log(x) / mpmath.log(2), 'log10': mpmath.log10, 'powf': mpmath.power,
    'powi': mpmath.power, 'exp2': lambda x: mpmath.power(2, x), 'sqrt': mpmath.sqrt, 'recip': lambda x: 1 / x,
    'abs': abs, 'signum': mpmath.sign,
}

BD = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp',
      'ln': 'ln', 'log': 'log', 'powf': 'pow', 'sqrt': 'sqrt'}

MEASURE = {}


def measure(key, ratio, case):
    if ratio > MEASURE.get(key, (0,))[0]:
        MEASURE[key] = (ratio, case)


@check('C02')
def c02(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis generates (function, decimal arguments in the stated domain, 10..50 digits); the value of '
             'eval of the method call, and of the bdmath function of that name, is compared with mpmath at 140 '
             'digits under the condition-scaled tolerance of the property. Non-trivial: the argument is not 0 or 1; '
             'distinct by function, arguments and digit count.')
    pm = lambda lo, hi: st.one_of(dec_in(lo, hi), st.sampled_from(['0', '0.5', '-0.5', '1', '-1', '0.25', '0.500001', '-0.499999']))
    near1 = st.one_of(dec_in(-1, 1), log_dec(-12, -2).map(lambda t: fmt(1 - frac(t))),
                      log_dec(-12, -2).map(lambda t: fmt(frac(t) - 1)), st.sampled_from(['1', '-1', '0.5', '-0.5', '0']))
    pos = st.one_of(log_dec(-6, 6), dec_in('0.001', 100), log_dec(-20, -2).map(lambda t: fmt(1 + frac(t))),
                    log_dec(-20, -2).map(lambda t: fmt(1 - frac(t))), st.sampled_from(['1', '2', '10', '0.5']))
    base = pos.filter(lambda t: abs(float(frac(t)) - 1) > 0.05)
    dom = {
        'sin': [pm(-12, 12)], 'cos': [pm(-12, 12)],
        'tan': [pm(-12, 12).filter(lambda t: abs(mpmath.cos(mpf(frac(t)))) > 0.01)],
        'asin': [near1], 'acos': [near1], 'atan': [st.one_of(pm(-3, 3), log_dec(-9, 9), log_dec(-9, 9).map(lambda t: '-' + t))],
        'exp': [pm(-12, 12)], 'ln': [pos], 'log': [pos, base], 'log2': [pos], 'log10': [pos],
        'powf': [dec_in('0.1', 20).filter(lambda t: frac(t) > 0), dec_in(-6, 6)],
        'powi': [dec_in('0.1', 20).filter(lambda t: frac(t) > 0), st.integers(-6, 6).map(str)],
        'exp2': [dec_in(-12, 12)],
        'sqrt': [st.one_of(log_dec(-15, 15), dec_in(0, 100), st.sampled_from(['0', '1', '4', '2.25']))],
        'recip': [st.one_of(log_dec(-15, 15), log_dec(-15, 15).map(lambda t: '-' + t))],
        'abs': [dec_in(-50, 50)], 'signum': [dec_in(-50, 50)],
    }
    names = sorted(dom)

    def one(case):
        fn, args, n = case
        ref = REF[fn](*[mpf(frac(t)) for t in args])
        ctx.case(fn, [args, n], any(t not in ('0', '1') for t in args))
        t = tol(fn, n, args, ref)
        src = '%s.%s(%s)' % (lit(args[0]) if args[0].startswith('-') else '(%s)' % args[0], fn, ', '.join(args[1:]))
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        outs = [('eval(%d) of %s' % (n, src), r[1])]
        if fn in BD:
            what = 'bdmath::%s(%s, %d)' % (BD[fn], ', '.join(args), n)
            tag, f = d.call('bd', BD[fn], n, *args)
            if tag != 'OK' or f[0] == 'NONE':
                raise Violation('%s gives %s %s' % (what, tag, f))
            outs.append((what, f[0]))
        for what, text in outs:
            err = abs(mpf(frac(text)) - ref)
            if err:
                measure(fn, float(err / t) if t else float('inf'), case)
            if err > t:
                raise Violation('%s is %s, exactly %s: error %s exceeds %s' % (
                    what, text, mpmath.nstr(ref, n + 10), mpmath.nstr(err, 3), mpmath.nstr(t, 3)))

    cases = st.sampled_from(names).flatmap(
        lambda fn: st.tuples(st.just(fn), st.tuples(*dom[fn]), st.one_of(st.sampled_from([20, 40]), st.integers(10, 50))))
    ctx.prop('functions', cases, one, ctx.n(3000, 40000))

    def const(case):
        name, n = case
        ctx.case('const', case)
        ref = {'pi': mpmath.pi, 'sqrt_two': mpmath.sqrt(2), 'one_over_root_two_pi': 1 / mpmath.sqrt(2 * mpmath.pi)}[name]
        tag, f = d.call('bd', name, n)
        if tag != 'OK':
            raise Violation('bdmath::%s(%d) gives %s' % (name, n, tag))
        got = f[0]
        if abs(mpf(frac(got)) - ref) > mpmath.mpf(10) ** -n:
            raise Violation('bdmath::%s(%d) is %s' % (name, n, got))
        if name == 'pi':
            r = value_of(*d.call('pipe', 'PI', 'eval;;%d' % n), 'eval(%d) of PI' % n)
            if abs(mpf(frac(r[1])) - ref) > mpmath.mpf(10) ** -n:
                raise Violation('eval(%d) of PI is %s' % (n, r[1]))

    ctx.fixed('const', [[c, n] for c in ('pi', 'sqrt_two', 'one_over_root_two_pi') for n in range(1, 90)], const)

    def digits(case):
        tag, f = d.call('digits', case)
        ctx.case('digits', case)
        if int(f[0]) < {32: 9, 64: 17}.get(case, 0):
            raise Violation('num_digits_for(%d) is %s: too few digits for the float' % (case, f[0]))
    ctx.fixed('digits', [32, 64], digits)

    # Compound expressions: nested functions and operators, high precision as the reference.
    def compound(case):
        e, n = X.from_json(case[0]), case[1]
        try:
            v, err = approx_bounds(e, n)
        except (Unclear, ZeroDivisionError):
            return
        if err > mpmath.mpf(10) ** (-n // 2):
            return
        src = X.render(e)
        ctx.case('compound', [src, n], sum(1 for k in X.walk(e) if k[0] in 'OM') >= 2)
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        got = mpf(frac(r[1]))
        err += mpmath.mpf(10) ** -110 * (1 + abs(v))        # of the reference itself
        if abs(got - v) > err:
            raise Violation('eval(%d) of %s is %s, exactly %s: error %s exceeds %s' % (
                n, src, r[1], mpmath.nstr(v, n + 5), mpmath.nstr(abs(got - v), 3), mpmath.nstr(err, 3)))

    leaves = st.one_of(dec_in('0', 4, 6).map(lambda t: ('F', t if '.' in t else t + '.0', '')), st.just(('V', 'PI')),
                       st.integers(0, 9).map(lambda i: ('I', str(i), '')))
    trees = X.exprs(leaves, methods=[('sin', 0), ('cos', 0), ('exp', 0), ('atan', 0), ('ln', 0), ('sqrt', 0),
                                     ('abs', 0), ('recip', 0), ('asin', 0), ('exp2', 0)], max_leaves=6)
    ctx.prop('compound', st.tuples(trees, st.sampled_from([20, 30, 40])), compound, ctx.n(1500, 20000))


def approx_bounds(e, n):
    """(value, error bound) of an n-digit evaluation with elementary functions, bounding every step."""
    u = mpmath.mpf(10) ** (-n)
    k = e[0]
    if k in ('F', 'I'):
        return mpf(X.lit_value(e)), mpmath.mpf(0)
    if k == 'V':
        return +mpmath.pi, u
    if k == 'P':
        return approx_bounds(e[1], n)
    if k == 'U':
        v, d = approx_bounds(e[2], n)
        return -v, d
    if k == 'O':
        a, da = approx_bounds(e[2], n)
        b, db = approx_bounds(e[3], n)
        if e[1] in '+-':
            return (a + b if e[1] == '+' else a - b), da + db
        if e[1] == '*':
            return a * b, abs(a) * db + abs(b) * da + da * db + u
        if abs(b) < 1e-3 or db > abs(b) / 2:
            raise Unclear()
        q = a / b
        return q, (da + abs(q) * db) / (abs(b) - db) + u + abs(q) * mpmath.mpf(10) ** -95
    if k == 'M':
        a, da = approx_bounds(e[2], n)
        m = e[1]
        if abs(a) > 12 or da > 1e-3:
            raise Unclear()
        if m in ('sin', 'cos', 'atan'):
            return REF[m](a), da + 3 * u
        if m in ('exp', 'exp2'):
            v = REF[m](a)
            return v, (v * 2 * da + (abs(a) * v + 1) * 2 * u)
        if m == 'ln':
            if a - da < 1e-3:
                raise Unclear()
            v = REF[m](a)
            return v, da / (a - da) + (1 + abs(v)) * u
        if m == 'sqrt':
            if a - da < 1e-3:
                raise Unclear()
            v = REF[m](a)
            return v, da / mpmath.sqrt(a - da) + v * mpmath.mpf(10) ** -90
        if m == 'abs':
            return abs(a), da
        if m == 'recip':
            if abs(a) - da < 1e-3:
                raise Unclear()
            return 1 / a, da / (abs(a) - da) ** 2 + mpmath.mpf(10) ** -90
        if m == 'asin':
            if abs(a) > 0.999:
                raise Unclear()
            return mpmath.asin(a), 30 * da + 3 * u
    raise Unclear()


# ------------------------------------------------------------------ C03
def pn(z):
    return mpmath.erfc(-z / mpmath.sqrt(2)) / 2


@check('C03')
def c03(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis generates arguments with |x - mean| <= 5 sd, sd in 0.05..20, mean in -10..10, p in '
             '0.0001..0.9999 and 15..45 digits; erf, erfc, dnorm, pnorm and qnorm through eval and through bdmath '
             'are compared with mpmath; qnorm is also checked against pnorm as its inverse; erf, erfc and pnorm once more '
             'for |x| up to 9 and 11 deviations with 30..55 digits. Non-trivial: not the '
             'standard normal at 0; distinct by function, arguments and digits.')
    sds = st.one_of(st.just('1'), dec_in('0.05', 20, 3).filter(lambda t: frac(t) > 0))
    means = st.one_of(st.just('0'), dec_in(-10, 10, 3))
    zs = st.one_of(dec_in(-5, 5, 6), dec_in(-1, 1, 20), st.sampled_from(['0', '1', '-1', '5', '-5']))
    ps = st.one_of(dec_in('0.0001', '0.9999', 12), dec_in('0.4', '0.6', 6), log_dec(-4, -1).filter(lambda t: frac(t) < 1),
                   log_dec(-4, -1).map(lambda t: fmt(1 - frac(t))).filter(lambda t: 0 < frac(t) < 1),
                   st.sampled_from(['0.5', '0.0001', '0.9999', '0.25']))

    def both(fn, n, args):
        src = '%s.%s(%s)' % ('(%s)' % args[0], fn, ', '.join(args[1:]))
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        yield 'eval(%d) of %s' % (n, src), mpf(frac(r[1]))
        tag, f = d.call('bd', fn, n, *args)
        what = 'bdmath::%s(%s, %d)' % (fn, ', '.join(args), n)
        if tag != 'OK' or f[0] == 'NONE':
            raise Violation('%s gives %s %s' % (what, tag, f))
        yield what, mpf(frac(f[0]))

    def direct(case):
        fn, z, mean, sd, n = case
        u = mpmath.mpf(10) ** -n
        Z, M, S = mpf(frac(z)), mpf(frac(mean)), mpf(frac(sd))
        ctx.case(fn, case, z != '0')
        if fn in ('erf', 'erfc'):
            if abs(Z) > 4:
                return
            args, ref, t = [z], getattr(mpmath, fn)(Z), 4 * (1 + abs(Z)) * u
        else:
            args = [fmt(frac(mean) + frac(sd) * frac(z)), mean, sd]
            ref, t = (mpmath.exp(-Z * Z / 2) / mpmath.sqrt(2 * mpmath.pi) / S, 2 * u / S) if fn == 'dnorm' else (pn(Z), 4 * (1 + abs(Z)) * u)
        for what, got in both(fn, n, args):
            measure(fn, float(abs(got - ref) / t), case)
            if abs(got - ref) > t:
                raise Violation('%s is %s, exactly %s' % (what, mpmath.nstr(got, n + 5), mpmath.nstr(ref, n + 5)))

    ns = st.one_of(st.sampled_from([20, 40]), st.integers(15, 45))

    def tails(case):
        """Far from the middle: all but 0, 1 or 2, and different from it by less than the digits or by more."""
        fn, z, mean, sd, n = case
        u = mpmath.mpf(10) ** -n
        Z, M, S = mpf(frac(z)), mpf(frac(mean)), mpf(frac(sd))
        with mpmath.workdps(120):
            if fn in ('erf', 'erfc'):
                args, ref = [z], getattr(mpmath, fn)(Z)
                gap = mpmath.erfc(abs(Z))
            else:
                args = [fmt(frac(mean) + frac(sd) * frac(z)), mean, sd]
                ref = pn(Z)
                gap = pn(-abs(Z))
            ctx.case('tail ' + fn, case, gap > 10 * u)
            t = 4 * (1 + abs(Z)) * u
            for what, got in both(fn, n, args):
                if abs(got - ref) > t:
                    raise Violation('%s is %s, exactly %s' % (what, mpmath.nstr(got, n + 5), mpmath.nstr(ref, n + 5)))

    ctx.prop('tails', st.one_of(
        st.tuples(st.sampled_from(['erf', 'erfc']), st.one_of(dec_in(3, 9, 3), dec_in(-9, -3, 3)), st.just('0'), st.just("1"), st.integers(30, 55)),
        st.tuples(st.just('pnorm'), st.one_of(dec_in(5, 11, 3), dec_in(-11, -5, 3)), means, sds, st.integers(30, 55))), tails,
        ctx.n(150, 3000))
    ctx.prop('direct', st.tuples(st.sampled_from(['erf', 'erfc', 'dnorm', 'pnorm']), zs, means, sds, ns), direct,
             ctx.n(1500, 20000))

    def quantile(case):
        p, mean, sd, n = case
        u = mpmath.mpf(10) ** -n
        P, M, S = mpf(frac(p)), mpf(frac(mean)), mpf(frac(sd))
        ctx.case('qnorm', case, p != '0.5' or mean != '0')
        for what, q in both('qnorm', n, [p, mean, sd]):
            z = (q - M) / S
            dens = mpmath.exp(-z * z / 2) / mpmath.sqrt(2 * mpmath.pi)
            t = 4 * (1 + abs(z)) * u + dens / S * u
            measure('qnorm', float(abs(pn(z) - P) / t), case)
            if abs(pn(z) - P) > t:
                raise Violation('%s is %s, whose probability is %s' % (what, mpmath.nstr(q, n + 5), mpmath.nstr(pn(z), n + 5)))

    ctx.prop('quantile', st.tuples(ps, means, sds, st.one_of(st.just(20), st.integers(15, 30))), quantile, ctx.n(250, 3000))


# ------------------------------------------------------------------ C04
GOOD = st.one_of(X.float_lits(exps=False, maxdigits=3), st.integers(0, 9).map(lambda i: ('I', str(i), '')))


def raw(s):
    return ('P', ('X', s))


BAD_ATOMS = {
    'variable': st.sampled_from(['x', 'y', 'foo', 'pi', 'Pi', 'E', 'PI2', 'e']).map(lambda v: ('V', v)),
    'path': st.sampled_from(['std::f64::consts::PI', 'f64::NAN', 'a::PI', 'PI::PI', 'f64::INFINITY']).map(lambda v: ('V', v)),
    'literal': st.sampled_from(['"1"', "'1'", 'b"1"', "b'1'", 'true', 'false', '"hello"']).map(raw),
    'syntax': st.sampled_from(['f(1)', 'sin(1)', '[1, 2]', '(1, 2)', '1 as f64', '{ 1 }', 'if true { 1 } else { 2 }',
                               'm!(1)', '&1', 'a[0]', '|t| t', '1..2', 'S { a: 1 }', 'match 1 { _ => 1 }', 'return 1',
                               'loop {}', '()', 'x?', 'unsafe { 1 }', 'b = 2', 'b += 2']).map(raw),
    'unary': st.tuples(st.sampled_from(['!', '*']), GOOD).map(lambda t: ('U', t[0], t[1])),
    'operator': st.tuples(st.sampled_from(['%', '<<', '>>', '&', '|', '^']), GOOD, GOOD).map(lambda t: ('O', t[0], t[1], t[2])),
    'bool operand': st.tuples(st.sampled_from(['<', '==', '>=', '!=']), GOOD, GOOD).map(lambda t: ('O', t[0], t[1], t[2])),
    'logic': st.tuples(st.sampled_from(['&&', '||']), GOOD, GOOD).map(lambda t: ('O', t[0], t[1], t[2])),
    'method': st.tuples(st.sampled_from(['floor', 'ceil', 'trunc', 'fract', 'mul_add', 'sinh', 'foo', 'max', 'min', 'cbrt',
                                         'hypot', 'atan2', 'to_bits', 'is_nan', 'sin_cos', 'ln_1p', 'exp_m1', 'tanh', 'Sin',
                                         'gamma', 'pow', 'floor_', 'log1p']), GOOD, st.lists(GOOD, max_size=2)).map(
        lambda t: ('M', t[0], t[1], tuple(t[2]))),
    'arity': st.one_of(
        st.tuples(st.sampled_from(['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'ln', 'sqrt', 'abs', 'signum', 'recip',
                                   'exp2', 'log2', 'log10', 'round', 'erf', 'erfc']), st.lists(GOOD, min_size=1, max_size=2)),
        st.tuples(st.sampled_from(['powf', 'powi', 'log', 'round_ieee']), st.one_of(st.just([]), st.lists(GOOD, min_size=2, max_size=3))),
        st.tuples(st.sampled_from(['dnorm', 'pnorm', 'qnorm']), st.one_of(st.lists(GOOD, max_size=1), st.lists(GOOD, min_size=3, max_size=3)))).map(
        lambda t: ('M', t[0], ('F', '0.5', ''), tuple(t[1]))),
}

NEG = dec_in('-9', '-0.001', 4).filter(lambda t: frac(t) < 0).map(lambda t: ('P', ('U', '-', ('F', t[1:] if '.' in t else t[1:] + '.0', ''))))
ZERO = st.sampled_from([('I', '0', ''), ('F', '0.0', ''), ('P', ('O', '-', ('F', '1.5', ''), ('F', '1.50', ''))),
                        ('P', ('U', '-', ('I', '0', ''))), ('P', ('O', '*', ('I', '0', ''), ('I', '7', ''))),
                        ('P', ('O', '+', ('P', ('U', '-', ('I', '2', ''))), ('F', '2.0', '')))])
NONPOS = st.one_of(NEG, ZERO)
OVER1 = dec_in('1.001', 9, 4).map(lambda t: ('F', t if '.' in t else t + '.0', ''))
BIG1 = st.one_of(OVER1, OVER1.map(lambda t: ('P', ('U', '-', t))))
ONE = st.sampled_from([('I', '1', ''), ('F', '1.0', ''), ('P', ('O', '-', ('I', '3', ''), ('I', '2', '')))])
POS = st.integers(1, 5).map(lambda i: ('I', str(i), ''))


def meth(name, recv, *args):
    return st.tuples(recv, *args).map(lambda t: ('M', name, t[0], tuple(t[1:])))


DOMAIN_ATOMS = {
    'div0': st.tuples(GOOD, ZERO).map(lambda t: ('O', '/', t[0], t[1])),
    'recip0': meth('recip', ZERO),
    'ln': meth('ln', NONPOS), 'log2': meth('log2', NONPOS), 'log10': meth('log10', NONPOS),
    'log': meth('log', NONPOS, POS), 'logbase': meth('log', POS, NONPOS), 'logbase1': meth('log', POS, ONE),
    'sqrt': meth('sqrt', NEG), 'asin': meth('asin', BIG1), 'acos': meth('acos', BIG1),
    'powneg': meth('powf', NEG, st.just(('F', '0.5', ''))),
    'dnorm': meth('dnorm', GOOD, GOOD, NONPOS), 'pnorm': meth('pnorm', GOOD, GOOD, NONPOS),
    'qnormsd': meth('qnorm', st.just(('F', '0.5', '')), GOOD, NONPOS),
    'qnorm': meth('qnorm', st.one_of(NONPOS, ONE, OVER1), GOOD, POS),
    'ieeebits': meth('round_ieee', GOOD, st.sampled_from([16, 0, 33, 63, 80, 128, 31]).map(lambda i: ('I', str(i), ''))),
    'ieeebig': st.sampled_from([('M', 'round_ieee', ('F', '3.5e38', ''), (('I', '32', ''),)),
                                ('M', 'round_ieee', ('F', '1.8e308', ''), (('I', '64', ''),)),
                                ('M', 'round_ieee', ('P', ('U', '-', ('F', '4.0e38', ''))), (('I', '32', ''),))]),
}


@check('C04')
def c04(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis builds an expression around one operand that has no value (unknown name, unsupported syntax, '
             'operator, method or arity, non-numeric literal, or arguments outside the domain of an operation), placed '
             'at any depth, and 5..40 digits; eval must return an error, neither a value nor a panic. Non-trivial: '
             'every case; distinct by source text.')
    atoms = dict(BAD_ATOMS)
    atoms.update(DOMAIN_ATOMS)

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(sorted(atoms)))
        e = draw(atoms[kind])
        depth = draw(st.integers(0, 3))
        # A bare literal, comparison, path or field is not an operation; put it into one.
        if depth == 0 and kind in ('literal', 'bool operand'):
            depth = 1
        for _ in range(depth):
            w = draw(st.integers(0, 5))
            if w == 0:
                e = ('O', draw(st.sampled_from('+-*')), e, draw(GOOD))
            elif w == 1:
                e = ('O', draw(st.sampled_from('+-*/')), draw(GOOD), e)
            elif w == 2:
                e = ('U', '-', e)
            elif w == 3:
                e = ('M', draw(st.sampled_from(['sin', 'abs', 'exp', 'cos', 'atan'])), e, ())
            elif w == 4:
                e = ('M', 'powf', ('I', '2', ''), (e,))
            else:
                e = ('O', draw(st.sampled_from(['<', '==', '>='])), draw(GOOD), e)
                # A comparison is only an error when its operands are; one more operator is not.
                break
            if w == 5:
                break
        return [kind, X.render(X.norm(e)), draw(st.sampled_from([5, 10, 20, 40]))]

    def bad(case):
        kind, src, n = case
        ctx.case('undefined', [src], True, kind)
        tag, f = d.call('pipe', src, 'eval;;%d' % n)
        if tag == 'PANIC':
            raise Violation('eval of %s panics instead of returning an error: %s' % (src, f[0]))
        if tag == 'OK':
            raise Violation('eval of %s is %s, but the expression has no value' % (src, f[1]))

    ctx.prop('undefined', cases(), bad, ctx.n(4000, 50000))

    # The other direction: every supported form on its domain has a value.
    good = {
        'PI': st.just(('V', 'PI')), 'lit': GOOD, 'neg': GOOD.map(lambda g: ('U', '-', g)),
        'paren': GOOD.map(lambda g: ('P', ('P', g))),
        'm0': st.tuples(st.sampled_from(['sin', 'cos', 'tan', 'atan', 'exp', 'abs', 'signum', 'exp2', 'round', 'erf', 'erfc']),
                        dec_in('0', '1.4', 3)).map(lambda t: ('M', t[0], ('P', ('X', t[1])), ())),
        'mpos': st.tuples(st.sampled_from(['ln', 'log2', 'log10', 'sqrt', 'recip']), dec_in('0.1', 9, 3)).map(
            lambda t: ('M', t[0], ('P', ('X', t[1])), ())),
        'mpow': st.tuples(st.sampled_from(['powf', 'powi', 'log']), dec_in('1.1', 5, 2), dec_in('2', '4', 0)).map(
            lambda t: ('M', t[0], ('P', ('X', t[1])), (('X', t[2]),))),
        'asin': st.tuples(st.sampled_from(['asin', 'acos']), dec_in(-1, 1, 3)).map(lambda t: ('M', t[0], ('P', ('X', t[1])), ())),
        'norm': st.tuples(st.sampled_from(['dnorm', 'pnorm', 'qnorm']), dec_in('0.1', '0.9', 3)).map(
            lambda t: ('M', t[0], ('P', ('X', t[1])), (('I', '0', ''), ('I', '1', '')))),
        'ieee': st.tuples(dec_in(-9, 9, 9), st.sampled_from(['32', '64'])).map(
            lambda t: ('M', 'round_ieee', ('P', ('X', t[0])), (('I', t[1], ''),))),
    }

    @st.composite
    def gcases(draw):
        kind = draw(st.sampled_from(sorted(good)))
        e = draw(good[kind])
        for _ in range(draw(st.integers(0, 2))):
            e = ('O', draw(st.sampled_from('+-*')), e, draw(GOOD)) if draw(st.booleans()) else ('O', draw(st.sampled_from('+-*')), draw(GOOD), e)
        return [kind, X.render(X.norm(e)), draw(st.sampled_from([10, 20, 40]))]

    def has_value(case):
        kind, src, n = case
        ctx.case('defined', [src], True, kind)
        value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))

    ctx.prop('defined', gcases(), has_value, ctx.n(1000, 10000))


# ------------------------------------------------------------------ C05
def round_away(x, n):
    s = x * 10 ** n
    f = abs(s)
    k = (2 * f.numerator + f.denominator) // (2 * f.denominator)
    return Fraction(k if s >= 0 else -k, 10 ** n)


@check('C05')
def c05(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis generates decimals (either sign, up to 60 digits, up to 60 places, ties and neighbours of ties '
             'on purpose) and 0..50 places; bdmath::round and the round() method of eval are compared with exact '
             'rational round-half-away-from-zero. Non-trivial: the decimal has more places than asked for; distinct by '
             'decimal and places.')
    big = st.one_of(st.integers(0, 99), st.integers(0, 10 ** 12), st.integers(0, 10 ** 60))

    @st.composite
    def cases(draw):
        n = draw(st.one_of(st.integers(0, 3), st.integers(0, 50)))
        sign = draw(st.sampled_from([1, -1]))
        if draw(st.booleans()):
            # near a tie: k + 1/2 +- tiny
            x = Fraction(2 * draw(big) + 1, 2 * 10 ** n)
            x += draw(st.sampled_from([0, 1, -1])) * Fraction(1, 10 ** (n + draw(st.integers(2, 15))))
        elif draw(st.integers(0, 4)) == 0:
            # just below the next power of ten
            x = Fraction(10 ** draw(st.integers(0, 12))) - Fraction(draw(st.integers(1, 9)), 10 ** (n + draw(st.integers(1, 4))))
        else:
            x = Fraction(draw(big), 10 ** draw(st.integers(0, 60)))
        text = fmt(sign * x)
        zeros = draw(st.integers(0, 5))
        if zeros:
            text += ('' if '.' in text else '.') + '0' * zeros
        return [text, n]

    def places(t):
        return len(t.split('.')[1]) if '.' in t else 0

    def one(case):
        text, n = case
        x = frac(text)
        ctx.case('round', case, places(text) > n, 'tie' if (x * 10 ** n * 2).denominator == 1 and (x * 10 ** n).denominator != 1 else 'other')
        tag, f = d.call('bd', 'round', n, text)
        if tag != 'OK':
            raise Violation('round(%s, %d) gives %s %s' % (text, n, tag, f))
        want = round_away(x, n)
        if frac(f[0]) != want:
            raise Violation('round(%s, %d) is %s, not %s' % (text, n, f[0], fmt(want)))
        if places(f[0]) > max(n, 0):
            raise Violation('round(%s, %d) keeps %d places: %s' % (text, n, places(f[0]), f[0]))
        tag, g = d.call('bd', 'round', n, f[0])
        if tag != 'OK' or frac(g[0]) != want:
            raise Violation('round(round(%s, %d), %d) is %s' % (text, n, n, g))

    ctx.prop('round', cases(), one, ctx.n(4000, 60000))

    def method(case):
        text, n = case
        src = '(%s).round()' % text
        ctx.case('method', case, '.' in text)
        r = value_of(*d.call('pipe', src, 'eval;;%d' % n), 'eval(%d) of %s' % (n, src))
        want = round_away(frac(text), 0)
        if r[0] == 'B' or frac(r[1]) != want:
            raise Violation('eval of %s is %s, not %s' % (src, r[1], want))

    ctx.prop('method', cases(), method, ctx.n(1500, 20000))


# ------------------------------------------------------------------ C06
def bits64(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def f64_of(bits):
    return struct.unpack('<d', struct.pack('<Q', int(bits, 16)))[0]


def f32_of(bits):
    return struct.unpack('<f', struct.pack('<I', int(bits, 16)))[0]


def nearest_float(x, bits):
    """Fraction -> nearest binary float as Fraction (ties to even), None on overflow. Exact arithmetic only."""
    p, emin, emax = (24, -149, 127) if bits == 32 else (53, -1074, 1023)
    if x == 0:
        return Fraction(0)
    s = -1 if x < 0 else 1
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    # 2^e <= a < 2^(e+1)
    while Fraction(2) ** e > a:
        e -= 1
    while Fraction(2) ** (e + 1) <= a:
        e += 1
    q = max(e - p + 1, emin)
    m = a / Fraction(2) ** q
    k = m.numerator // m.denominator
    r = m - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k % 2 == 1):
        k += 1
    v = k * Fraction(2) ** q
    if v >= Fraction(2) ** (emax + 1):
        return None
    return s * v


def float_bits(bits):
    """Bit patterns of finite floats of every kind."""
    if bits == 64:
        any_ = st.integers(0, 2 ** 64 - 1).filter(lambda b: (b >> 52) & 0x7ff != 0x7ff)
        mid = st.builds(lambda s, e, m: (s << 63) | ((1023 + e) << 52) | m, st.integers(0, 1), st.integers(-60, 60), st.integers(0, 2 ** 52 - 1))
        small = st.builds(lambda s, m: (s << 63) | m, st.integers(0, 1), st.one_of(st.integers(0, 8), st.integers(0, 2 ** 52 - 1)))
        exp = st.builds(lambda s, e, m: (s << 63) | (e << 52) | m, st.integers(0, 1), st.integers(0, 2046), st.sampled_from([0, 1, 2 ** 52 - 1, 2 ** 51]))
        nice = st.one_of(st.integers(-1000, 1000).map(float), st.sampled_from([0.1, 0.2, 0.3, 1e22, 1e23, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308,
                                                                              9007199254740993.0, 123456.789, 1e16, 1e15, 1e-5, 1e-7])).map(lambda f: int(bits64(f), 16))
        return st.one_of(any_, mid, small, exp, nice).map(lambda b: '%016x' % b)
    any_ = st.integers(0, 2 ** 32 - 1).filter(lambda b: (b >> 23) & 0xff != 0xff)
    mid = st.builds(lambda s, e, m: (s << 31) | ((127 + e) << 23) | m, st.integers(0, 1), st.integers(-30, 30), st.integers(0, 2 ** 23 - 1))
    small = st.builds(lambda s, m: (s << 31) | m, st.integers(0, 1), st.one_of(st.integers(0, 8), st.integers(0, 2 ** 23 - 1)))
    exp = st.builds(lambda s, e, m: (s << 31) | (e << 23) | m, st.integers(0, 1), st.integers(0, 254), st.sampled_from([0, 1, 2 ** 23 - 1, 2 ** 22]))
    return st.one_of(any_, mid, small, exp).map(lambda b: '%08x' % b)


@st.composite
def near_float_decimals(draw, bits):
    """Decimals around floats, midpoints of neighbouring floats, the overflow threshold and subnormals."""
    b = draw(float_bits(bits))
    f = Fraction(f64_of(b) if bits == 64 else f32_of(b))
    kind = draw(st.sampled_from(['exact', 'mid', 'mid+', 'mid-', 'short', 'any', 'limit']))
    p, emin = (24, -149) if bits == 32 else (53, -1074)
    top = (Fraction(2) - Fraction(2) ** (1 - p)) * Fraction(2) ** (127 if bits == 32 else 1023)
    if kind == 'limit':
        ulp = Fraction(2) ** ((127 if bits == 32 else 1023) - p + 1)
        f = top + ulp * draw(st.sampled_from([Fraction(1, 2), Fraction(49, 100), Fraction(51, 100), Fraction(1), Fraction(0), Fraction(1, 4)]))
        return kind, fmt(f * draw(st.sampled_from([1, -1])))
    if kind == 'exact':
        return kind, fmt(f)
    if kind == 'any':
        return kind, draw(st.one_of(dec_in(-1000, 1000), log_dec(-30, 30)))
    if kind == 'short':
        return kind, repr(float(f)) if False else fmt(Fraction('%.*e' % (draw(st.integers(1, 17)), float(f))))
    a = abs(f)
    e = emin if a == 0 else max(emin, (a.numerator.bit_length() - a.denominator.bit_length()) - p + 1)
    if a and Fraction(2) ** (e + p) <= a:
        e += 1
    m = f + Fraction(2) ** e / 2
    if kind != 'mid':
        tiny = Fraction(1, 10 ** draw(st.sampled_from([30, 60, 400 if bits == 64 else 60, 1100 if bits == 64 else 170])))
        m += tiny if kind == 'mid+' else -tiny
    return kind, fmt(m)


@check('C06')
def c06(ctx):
    d = build.get_driver()
    ctx.rule('Hypothesis generates decimals near floats, exact midpoints of neighbouring floats and their neighbours, '
             'subnormals and the overflow threshold, for 32 and 64 bits; round_ieee (bdmath and eval) is compared with '
             'exact round-to-nearest-even on rationals and must be idempotent; bdmath::bigdf/bigdf32 of generated bit '
             'patterns must be the exact value. Non-trivial: the decimal is not already a float; distinct by decimal.')

    def one(bits, case):
        kind, text = case
        x = frac(text)
        want = nearest_float(x, bits)
        ctx.case('round%d' % bits, text, want != x, kind)
        if want is not None:
            # the oracle itself agrees with the C library's decimal conversion
            if bits == 64 and Fraction(float(text)) != want:
                from common import CheckError
                raise CheckError('oracle disagrees with strtod on ' + text)
        for what, call in (('bdmath::round_ieee(%s, %d)' % (text[:80], bits), ('bd', 'round_ieee', 40, text, bits)),
                           ('eval of (%s).round_ieee(%d)' % (text[:80], bits), ('pipe', '(%s).round_ieee(%d)' % (text, bits), 'eval;;40'))):
            tag, f = d.call(*call)
            if tag == 'PANIC':
                raise Violation('%s panics: %s' % (what, f[0]))
            if want is None:
                if tag != 'ERR':
                    raise Violation('%s overflows but gives %s' % (what, f[0][:80]))
                continue
            if tag != 'OK':
                raise Violation('%s gives %s %s' % (what, tag, f[0][:200]))
            got = frac(f[0] if call[0] == 'bd' else X.parse(f[0])[1])
            if got != want:
                raise Violation('%s is %s, the nearest float is %s' % (what, float(got).hex(), float(want).hex()))
        if want is not None:
            tag, f = d.call('bd', 'round_ieee', 20, fmt(want), bits)
            if tag != 'OK' or frac(f[0]) != want:
                raise Violation('round_ieee of the float %s (%d bits) is %s %s' % (float(want).hex(), bits, tag, f[0][:100]))

    for bits in (32, 64):
        ctx.prop('round%d' % bits, near_float_decimals(bits), lambda c, b=bits: one(b, c), ctx.n(1500, 20000))

    def exact(bits, b):
        f = f64_of(b) if bits == 64 else f32_of(b)
        ctx.case('exact%d' % bits, b, f != 0)
        tag, r = d.call('bigdf' if bits == 64 else 'bigdf32', b)
        if tag != 'OK':
            raise Violation('bigdf of %s gives %s %s' % (f.hex(), tag, r))
        if frac(r[0]) != Fraction(f):
            raise Violation('bigdf%s(%r) is %s' % ('' if bits == 64 else '32', f, r[0][:100]))

    for bits in (32, 64):
        ctx.prop('exact%d' % bits, float_bits(bits), lambda b, n=bits: exact(n, b), ctx.n(1500, 20000))
