"""C07, C12-C14: numbers as expressions, interpolation, approximation, number types."""
import math, struct
from fractions import Fraction

import mpmath
from hypothesis import strategies as st

import build
import expr as X
from common import Violation
from transform_checks import ok

mp = mpmath.mp
mp.dps = max(mp.dps, 140)


def mpf(fr):
    return mpmath.mpf(fr.numerator) / fr.denominator


def f64_bits(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def f64_of(b):
    return struct.unpack('<d', struct.pack('<Q', int(b, 16)))[0]


def f32_of(b):
    return struct.unpack('<f', struct.pack('<I', int(b, 16)))[0]


def to_f64(fr):
    """Correctly rounded."""
    try:
        return fr.numerator / fr.denominator
    except OverflowError:
        return math.inf if fr > 0 else -math.inf


def round_to(fr, p, emin, emax):
    """fr rounded to nearest even with p bits of precision, exponents from emin; None for infinity."""
    if fr == 0:
        return Fraction(0)
    s, a = (-1 if fr < 0 else 1), abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    if Fraction(2) ** (e + 1) <= a:
        e += 1
    q = Fraction(2) ** (max(e, emin) - (p - 1))
    n = a / q
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or r == Fraction(1, 2) and k % 2:
        k += 1
    v = k * q
    return None if v >= Fraction(2) ** (emax + 1) else s * v


def nearest(fr, bits):
    """Hex bits of the nearest f32 or f64."""
    p, emin, emax = (24, -126, 127) if bits == 32 else (53, -1022, 1023)
    v = round_to(fr, p, emin, emax)
    x = math.copysign(math.inf, fr) if v is None else v.numerator / v.denominator
    if bits == 32:
        return '%08x' % struct.unpack('<I', struct.pack('<f', x))[0]
    return f64_bits(x)


# decimals near the halfway points between floats, and everything else
@st.composite
def awkward_decimals(draw, bits=None):
    """Positive decimal texts: short, long, extreme, and within a whisker of a tie."""
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return draw(X.float_lits())[1]
    if kind == 1:
        return draw(X.float_lits(maxdigits=45, exps=False))[1]
    if kind == 2:
        m = draw(st.integers(1, 10 ** 20))
        return '%d.%de%d' % (m, draw(st.integers(0, 999)), draw(st.integers(-340, 290)))
    b = bits or draw(st.sampled_from([32, 64]))
    if b == 32:
        x = f32_of('%08x' % draw(st.integers(1, 0x7f7ffffe)))
        y = f32_of('%08x' % (struct.unpack('<I', struct.pack('<f', x))[0] + 1))
    else:
        k = draw(st.integers(1, 0x7feffffffffffffe))
        x, y = f64_of('%016x' % k), f64_of('%016x' % (k + 1))
    mid = (Fraction(x) + Fraction(y)) / 2 if kind != 5 else Fraction(x)
    # exact decimal expansion of a dyadic rational
    e = mid.denominator.bit_length() - 1
    digits = str(mid.numerator * 5 ** e)
    if kind == 4:
        # beyond double rounding through f64 for f32
        digits += '0' * draw(st.integers(0, 12)) + draw(st.sampled_from(['1', '0']))
        e10 = len(digits) - len(str(mid.numerator * 5 ** e))
    else:
        e10 = 0
    return '%s.0e%d' % (digits, -e - e10)


@st.composite
def awkward_ints(draw):
    """Integers at or next to the middle of two floats, or of many digits."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return draw(st.integers(0, 10 ** draw(st.integers(1, 37))))
    p = 24 if kind < 3 else 53
    k = draw(st.integers(1, 126 - p))
    n = (draw(st.integers(2 ** (p - 1), 2 ** p - 1)) << k) + (1 << (k - 1))
    if kind == 2 and n.bit_length() > 54:
        # a tie of f32 that the nearest f64 hides
        return n + draw(st.sampled_from([-1, 1])) * draw(st.integers(1, max(1, 2 ** (n.bit_length() - 54) - 1)))
    return max(0, n + draw(st.integers(-2, 2)))


INT_FORMS = {'d': '{}', 'x': '0x{:x}', 'o': '0o{:o}', 'b': '0b{:b}', '_': '{:_}', 'X': '0x{:X}'}
int_texts = st.tuples(awkward_ints(), st.sampled_from('ddxob_X')).map(lambda t: INT_FORMS[t[1]].format(t[0]))


def dec_value(s):
    return Fraction(s)


# ------------------------------------------------------------------ C07
def check_c07(ctx):
    ctx.rule('round trips of random bit patterns of f64 and f32 and of random decimals through Expression; conversion '
             'of literal texts (ties and near ties between floats included) to f64, f32 and BigDecimal, which must be '
             'exact or correctly rounded; conversion of other expressions, which must fail. Non-trivial: the value is '
             'not a small integer.')
    d = build.get_driver()

    def rt(case):
        kind, bits = case
        x = f64_of(bits) if kind == 'f64' else f32_of(bits)
        if math.isnan(x) or math.isinf(x):
            return
        ctx.case('rt', case, x != int(x) or abs(x) > 1000, kind)
        f = ok(*d.call('rt', kind, bits), 'conversion of the %s %r' % (kind, x))
        v = f64_of(f[0]) if kind == 'f64' else f32_of(f[0])
        if v != x:
            raise Violation('%s %r becomes the expression %s, which reads back as %r' % (kind, x, f[3], v))
        if kind == 'f64' and to_f64(Fraction(f[1])) != x:
            raise Violation('f64 %r becomes the decimal %s' % (x, f[1]))
        t = X.parse(f[2])
        if t[0] not in 'FI':
            raise Violation('%s %r becomes %s, not a literal' % (kind, x, f[3]))
        if nearest(Fraction(f[1]), 64 if kind == 'f64' else 32) != nearest(Fraction(x), 64 if kind == 'f64' else 32):
            raise Violation('%s %r becomes the decimal %s' % (kind, x, f[1]))

    bits64 = st.one_of(st.floats(allow_nan=False, allow_infinity=False).map(f64_bits),
                       st.integers(0, 2 ** 64 - 1).map(lambda i: '%016x' % i),
                       st.floats(-1000, 1000).map(f64_bits))
    bits32 = st.one_of(st.floats(allow_nan=False, allow_infinity=False, width=32).map(
        lambda x: '%08x' % struct.unpack('<I', struct.pack('<f', x))[0]),
        st.integers(0, 2 ** 32 - 1).map(lambda i: '%08x' % i))
    ctx.prop('rt', st.one_of(st.tuples(st.just('f64'), bits64), st.tuples(st.just('f32'), bits32)), rt,
             ctx.n(3000, 100000))

    def rtbd(case):
        v = Fraction(case)
        ctx.case('decimal', case, v != 0)
        f = ok(*d.call('rt', 'bd', case), 'conversion of the decimal ' + case)
        if Fraction(f[1]) != v:
            raise Violation('the decimal %s becomes %s and reads back as %s' % (case, f[3], f[1]))

    plain = st.tuples(st.sampled_from(['', '-']), X.float_lits(maxdigits=60)).map(lambda t: t[0] + t[1][1])
    ctx.prop('decimal', plain, rtbd, ctx.n(1000, 20000))

    def literal(case):
        text, suffix = case
        v = dec_value(text)
        if v == 0:
            return
        src = text + suffix
        ctx.case('literal', src, True)
        for bits in (32, 64):
            f = ok(*d.call('to', 'f%d' % bits, src), 'conversion of %s to f%d' % (src, bits))
            want = nearest(v, bits)
            if f[0] != want:
                raise Violation('%s as f%d is bits %s, the nearest is %s' % (src, bits, f[0], want))
        f = ok(*d.call('to', 'bd', src), 'conversion of %s to a decimal' % src)
        if Fraction(f[0]) != v:
            raise Violation('%s as a decimal is %s' % (src, f[0]))

    ctx.prop('literal', st.tuples(awkward_decimals(), st.sampled_from(['', '', 'f32', 'f64'])), literal,
             ctx.n(1500, 40000))

    def integer(case):
        v, form, suffix = case
        src = {'d': '%d', 'x': '0x%x', 'o': '0o%o', 'X': '0x%X'}.get(form, '%d') % v
        if form == 'b':
            src = '0b' + bin(v)[2:]
        if form == '_':
            src = '{:_}'.format(v)
        src += suffix
        ctx.case('integer', src, v > 9, form)
        f = ok(*d.call('to', 'bd', src), 'conversion of %s to a decimal' % src)
        if Fraction(f[0]) != v:
            raise Violation('%s as a decimal is %s' % (src, f[0]))
        for bits in (32, 64):
            f = ok(*d.call('to', 'f%d' % bits, src), 'conversion of %s to f%d' % (src, bits))
            if f[0] != nearest(Fraction(v), bits):
                raise Violation('%s as f%d is bits %s, the nearest is %s' % (src, bits, f[0], nearest(Fraction(v), bits)))

    ctx.prop('integer', st.tuples(st.one_of(st.integers(0, 300), st.integers(0, 2 ** 64 - 1), st.integers(0, 10 ** 30), awkward_ints()),
                                  st.sampled_from('dxob_X'), st.sampled_from(['', '_u64', 'i64'])), integer,
             ctx.n(800, 15000))

    def other(case):
        src = X.render(X.from_json(case))
        ctx.case('other', src, True)
        for k in ('f64', 'f32', 'bd'):
            tag, f = d.call('to', k, src)
            if tag != 'ERR':
                raise Violation('%s, no literal, converts to %s: %s %s' % (src, k, tag, f))

    tree = X.exprs(st.one_of(X.float_lits(), X.simple_names.map(lambda n: ('V', n)),
                             st.sampled_from([('B', 'true'), ('L', '"1.5"'), ('L', "'1'")])),
                   methods=[('sin', 0), ('powi', 1)], calls=[('f', 1)], casts=('f64',), max_leaves=4)
    ctx.prop('other', tree.filter(lambda e: e[0] not in 'FI'), other, ctx.n(400, 5000))


# ------------------------------------------------------------------ C12
def interp_bound(xs, ys, n, z=None):
    """Bound on the error of the coefficients that rounding to n digits may cause (generous, but rigorous in order)."""
    k = len(xs)
    u = Fraction(1, 10 ** n) + Fraction(1, 10 ** 95)
    sep = min([abs(a - b) for i, a in enumerate(xs) for b in xs[:i]] or [Fraction(1)])
    amp = max(Fraction(1), 2 / sep + 1)
    ymax = max([abs(y) for y in ys] + [Fraction(1)])
    prod = Fraction(1)
    for x in xs:
        prod *= 1 + abs(x)
    return u * k * k * 4 * amp ** (k - 1) * prod * (1 + ymax)


def newton_bounds(xs, ys, n):
    """Bound on the error of each coefficient when every step of Newton's method is rounded to n digits, four fold."""
    k = len(xs)
    u = 4 * (Fraction(1, 2 * 10 ** n) + max([abs(y) for y in ys]) / 10 ** 90)
    dd, de = list(ys), [Fraction(0)] * k
    for i in range(1, k):
        for j in range(k - 1, i - 1, -1):
            w = xs[j] - xs[j - i]
            dd[j] = (dd[j] - dd[j - 1]) / w
            de[j] = (de[j] + de[j - 1]) / abs(w) + u
    out = [Fraction(0)] * k
    w, we = [Fraction(1)] + [Fraction(0)] * k, [Fraction(0)] * (k + 1)
    for i in range(k):
        for j in range(k):
            out[j] += abs(w[j]) * de[i] + we[j] * (abs(dd[i]) + de[i]) + u
        x = xs[i]
        we = [abs(x) * we[0] + u] + [we[j - 1] + abs(x) * we[j] + u for j in range(1, k + 1)]
        w = [-x * w[0]] + [w[j - 1] - x * w[j] for j in range(1, k + 1)]
    return out


def exact_poly(xs, ys):
    """Coefficients of the interpolating polynomial."""
    k = len(xs)
    dd = list(ys)
    for i in range(1, k):
        for j in range(k - 1, i - 1, -1):
            dd[j] = (dd[j] - dd[j - 1]) / (xs[j] - xs[j - i])
    out = [Fraction(0)] * k
    newton = [Fraction(1)] + [Fraction(0)] * k
    for i in range(k):
        for j in range(k):
            out[j] += newton[j] * dd[i]
        newton = [-(xs[i]) * newton[0]] + [newton[j - 1] - xs[i] * newton[j] for j in range(1, k + 1)]
    return out


def check_c12(ctx):
    ctx.rule('interpolation: 1 to 9 distinct random decimal abscissae at least 0.05 apart in any order, random '
             'ordinates, 20 to 70 digits; coefficients are compared with exact rational interpolation. eval: random '
             'coefficients by interpolating at 0, 1, ..; values compared with exact arithmetic. Non-trivial: at least '
             'three points.')
    d = build.get_driver()
    fine = st.integers(-600, 600).map(lambda i: Fraction(i, 100))
    ordinate = st.one_of(st.integers(-9, 9).map(Fraction), st.integers(-10 ** 7, 10 ** 7).map(lambda i: Fraction(i, 10 ** 4)),
                         st.just(Fraction(0)))

    def dec(fr):
        return str(fr.numerator) if fr.denominator == 1 else format(
            mpmath.nstr(mpf(fr), 60, strip_zeros=True, min_fixed=-100, max_fixed=100))

    @st.composite
    def points(draw):
        k = draw(st.integers(1, 9))
        xs = []
        for _ in range(k):
            x = draw(fine)
            if all(abs(x - y) >= Fraction(1, 20) for y in xs):
                xs.append(x)
        ys = [draw(ordinate) for _ in xs]
        zs = [draw(fine) for _ in range(3)]
        return [[str(x) for x in xs], [str(y) for y in ys], [str(z) for z in zs], draw(st.sampled_from([20, 40, 70]))]

    def poly(case):
        xs, ys, zs = [[Fraction(t) for t in l] for l in case[:3]]
        n, k = case[3], len(xs)
        ctx.case('poly', case, k >= 3, '%d points' % k)
        args = [dec(v) for v in xs + ys + xs + zs]
        what = 'interpolation of %s, %s to %d digits' % ([dec(x) for x in xs], [dec(y) for y in ys], n)
        f = ok(*d.call('poly', n, k, *args), what)
        i = f.index('|')
        got, vals = [Fraction(t) for t in f[:i]], [Fraction(t) for t in f[i + 1:]]
        lims = newton_bounds(xs, ys, n)
        want = exact_poly(xs, ys)
        if len(got) != k:
            raise Violation('%s has %d coefficients' % (what, len(got)))
        for j in range(k):
            if abs(got[j] - want[j]) > lims[j]:
                raise Violation('%s: coefficient of x^%d is %s, exactly %s (allowed error %.2e)' % (
                    what, j, mpmath.nstr(mpf(got[j]), 30), mpmath.nstr(mpf(want[j]), 30), float(lims[j])))
        # Evaluation is exact.
        for z, v in zip(xs + zs, vals):
            e = sum(c * z ** j for j, c in enumerate(got))
            if abs(v - e) > Fraction(1, 10 ** 90) * (1 + abs(e)):
                raise Violation('%s: the value at %s is %s, by its coefficients %s' % (what, z, float(v), float(e)))

    ctx.prop('poly', points(), poly, ctx.n(1500, 30000))


# ------------------------------------------------------------------ C13
def mul_add_value(e, env):
    k = e[0]
    if k == 'M' and e[1] == 'mul_add':
        a, b, c = [mul_add_value(x, env) for x in (e[2],) + tuple(e[3])]
        return a * b + c
    if k == 'P':
        return mul_add_value(e[1], env)
    if k == 'U':
        return -mul_add_value(e[2], env)
    if k == 'O':
        a, b = mul_add_value(e[2], env), mul_add_value(e[3], env)
        return {'*': a * b, '+': a + b, '-': a - b}[e[1]]
    if k in 'FI':
        return X.lit_value(e)
    if k == 'V' and e[1] in env:
        return env[e[1]]
    raise Violation('the approximation has a part that is no polynomial: %s' % X.render(e))


DERIV = {
    # name: (source, value, bound of the n-th derivative on [a, b])
    'sin': ('%s.sin()', mpmath.sin, lambda n, a, b: 1),
    'cos': ('%s.cos()', mpmath.cos, lambda n, a, b: 1),
    'exp': ('%s.exp()', mpmath.exp, lambda n, a, b: mpmath.exp(b)),
    'exp2': ('%s.exp2()', lambda x: mpmath.mpf(2) ** x, lambda n, a, b: mpmath.mpf(2) ** b * mpmath.ln(2) ** n),
    'ln4': ('(%s + 4).ln()', lambda x: mpmath.ln(x + 4), lambda n, a, b: mpmath.factorial(n - 1) / (a + 4) ** n),
    'recip4': ('(%s + 4).recip()', lambda x: 1 / (x + 4), lambda n, a, b: mpmath.factorial(n) / (a + 4) ** (n + 1)),
}


def check_c13(ctx):
    ctx.rule('polynomial: a random polynomial expression in a random variable is reproduced by enough terms; '
             'function: sin, cos, exp, exp2, ln, 1/x within the interpolation error bound of the Chebyshev-like nodes '
             'and exact at them; parity: odd and even functions on symmetric intervals give odd and even polynomials; '
             'errors: a wrong number of terms for the parity, and unknown variables, are errors; arguments: so are fewer than '
             'two terms and ends that are equal or not finite. Non-trivial: at least three terms, or unusable arguments.')
    d = build.get_driver()
    names = st.sampled_from(['x', 'y', 'arg', 'a::b'])
    digits = st.sampled_from([40, 60, 80])
    # Widths of at least a half keep the nodes apart.
    ends = st.tuples(st.one_of(st.integers(-24, 20).map(lambda i: i / 8), st.floats(-3.0, 2.5).map(lambda v: v if abs(v) > 1e-3 else 0.1)),
                     st.one_of(st.integers(4, 48).map(lambda i: i / 8), st.floats(0.5, 6.0)))

    def run(src, k, a, b, name, parity, n):
        tag, f = d.call('pipe', src, 'approx;;%d;;%s;;%s;;%s;;%s;;%d' % (k, f64_bits(a), f64_bits(b), name, parity, n))
        return tag, f

    def tree(f):
        return X.parse(f[0]), f[1]

    def nodes(a, b, k):
        a, b = mpmath.mpf(a), mpmath.mpf(b)
        return [(a + b) / 2 - (b - a) / 2 * mpmath.cos(mpmath.pi * i / (k - 1)) for i in range(k)]

    def tol(a, b, k, n, ymax):
        xs = [Fraction(int(x * 10 ** 30), 10 ** 30) for x in nodes(a, b, k)]
        return mpf(interp_bound(xs, [Fraction(int(ymax + 2))], n)) * 100 * max(1, abs(mpmath.mpf(b)), abs(mpmath.mpf(a))) ** k

    def shape(e, src, parity, name, k):
        """How often each power occurs is left open; the polynomial must have the parity exactly."""
        for z in (Fraction(3, 7), Fraction(5, 3)):
            p, m = mul_add_value(e, {name: z}), mul_add_value(e, {name: -z})
            if parity == 'odd' and p != -m:
                raise Violation('the odd approximation of %s is not odd: %s' % (src, X.render(e)))
            if parity == 'even' and p != m:
                raise Violation('the even approximation of %s is not even: %s' % (src, X.render(e)))

    def polynomial(case):
        coefs, extra, (a, w), name, parity, n = case
        coefs = [Fraction(c) for c in coefs]
        b = a + w
        if parity != 'neither':
            a, b = -w / 2, w / 2
            coefs = [c if i % 2 == (parity == 'odd') else Fraction(0) for i, c in enumerate(coefs)]
        k = max(2, len(coefs) + extra)
        if parity == 'odd' and k % 2 or parity == 'even' and k % 2 == 0:
            k += 1
        terms = []
        for i, c in enumerate(coefs):
            if c:
                terms.append('(%s)' % float(c) + ' * %s' % name * i)
        src = ' + '.join(terms) or '0.0 * ' + name
        ctx.case('polynomial', [src, k, a, b, name, parity, n], k >= 3, parity)
        what = 'approx(%d, %s, %s, %s, %s, %d) of %s' % (k, a, b, name, parity, n, src)
        e, text = tree(ok(*run(src, k, a, b, name, parity, n), what))
        shape(e, src, parity, name, k)
        ymax = sum(abs(c) * max(1, abs(Fraction(a)), abs(Fraction(b))) ** i for i, c in enumerate(coefs))
        lim = tol(a, b, k, n, ymax)
        for t in range(5):
            z = Fraction(a) + Fraction(w) * Fraction(t * 7 + 1, 31)
            got, want = mul_add_value(e, {name: z}), sum(c * z ** i for i, c in enumerate(coefs))
            if abs(mpf(got - want)) > lim:
                raise Violation('%s is %s, %s instead of %s at %s (allowed error %s)' % (
                    what, text, float(got), float(want), float(z), mpmath.nstr(lim, 3)))

    coef = st.one_of(st.integers(-5, 5).map(str), st.integers(-64, 64).map(lambda i: str(Fraction(i, 8))))
    ctx.prop('polynomial', st.tuples(st.lists(coef, min_size=1, max_size=6), st.integers(0, 2), ends, names,
                                     st.sampled_from(['neither', 'neither', 'odd', 'even']), digits), polynomial,
             ctx.n(600, 10000))

    def function(case):
        fn, k, (a, w), name, parity, n, backwards = case
        b = a + w
        if parity == 'odd':
            fn, a, b, k = 'sin', -w / 2, w / 2, k + k % 2
        elif parity == 'even':
            fn, a, b, k = 'cos', -w / 2, w / 2, k + 1 - k % 2
        text, val, deriv = DERIV[fn]
        if fn in ('ln4', 'recip4') and a <= -3.5:
            return
        src = text % name
        ctx.case('function', [src, k, a, b, name, parity, n, backwards], k >= 3, fn + (' backwards' if backwards else ''))
        ends_ = (b, a) if backwards else (a, b)
        what = 'approx(%d, %s, %s, %s, %s, %d) of %s' % (k, ends_[0], ends_[1], name, parity, n, src)
        e, shown = tree(ok(*run(src, k, ends_[0], ends_[1], name, parity, n), what))
        shape(e, src, parity, name, k)
        xs = nodes(a, b, k)
        ymax = max(abs(val(x)) for x in xs)
        lim = tol(a, b, k, n, ymax)
        if lim > mpmath.mpf(10) ** -4:
            return
        for z in [Fraction(int(x * mpmath.mpf(10) ** 60), 10 ** 60) for x in xs] + \
                 [Fraction(a) + Fraction(w) * Fraction(t * 5 + 1, 37) for t in range(8)]:
            x = mpf(z)
            bound = deriv(k, mpmath.mpf(a), mpmath.mpf(b)) / mpmath.factorial(k)
            for y in xs:
                bound *= abs(x - y)
            err = abs(mpf(mul_add_value(e, {name: z})) - val(x))
            if err > bound * mpmath.mpf('1.000001') + lim:
                raise Violation('%s is %s: error %s at %s, the interpolation error is at most %s' % (
                    what, shown, mpmath.nstr(err, 4), mpmath.nstr(x, 20), mpmath.nstr(bound + lim, 4)))

    ctx.prop('function', st.tuples(st.sampled_from(sorted(DERIV)), st.integers(2, 12), ends, names,
                                   st.sampled_from(['neither', 'neither', 'odd', 'even']), digits,
                                   st.sampled_from([False, False, False, True])), function,
             ctx.n(300, 5000))

    def errors(case):
        kind, k, parity, n = case
        src = {'parity': 'x * x.cos()', 'variable': 'x + z', 'method': 'x.nosuch()', 'unsupported': 'f(x)',
               'domain': '(x - 5).ln()'}[kind]
        wrong = kind != 'parity' or (parity == 'odd' and k % 2) or (parity == 'even' and k % 2 == 0)
        ctx.case('errors', case, wrong, kind)
        tag, f = run(src, k, -1.0, 1.0, 'x', parity, n)
        if tag == 'PANIC':
            raise Violation('approx(%d, -1, 1, x, %s) of %s panics: %s' % (k, parity, src, f[0]))
        if (tag == 'ERR') != bool(wrong):
            raise Violation('approx(%d, -1, 1, x, %s) of %s is %s %s' % (k, parity, src, tag, f[0]))

    ctx.prop('errors', st.tuples(st.sampled_from(['parity', 'variable', 'method', 'unsupported', 'domain']),
                                 st.integers(2, 9), st.sampled_from(['odd', 'even', 'neither']), st.just(30)), errors,
             ctx.n(150, 1000))

    def arguments(case):
        src, k, a, b, parity = case
        wrong = k < 2 or a == b or not math.isfinite(a) or not math.isfinite(b) or \
            (parity == 'odd' and k % 2) or (parity == 'even' and k % 2 == 0)
        ctx.case('arguments', [src, k, repr(a), repr(b), parity], wrong, 'unusable' if wrong else 'usable')
        tag, f = run(src, k, a, b, 'x', parity, 30)
        if tag == 'PANIC' or (tag == 'ERR') != bool(wrong):
            raise Violation('approx(%d, %s, %s, x, %s) of %s is %s %s' % (k, a, b, parity, src, tag, f[0]))

    end = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, math.nan, math.inf, -math.inf]), st.integers(-8, 8).map(lambda i: i / 4))
    ctx.prop('arguments', st.tuples(st.sampled_from(['x.sin()', 'x * x', 'x', '1.5']), st.one_of(st.integers(0, 2), st.integers(0, 6)),
                                    end, end, st.sampled_from(['odd', 'even', 'neither'])), arguments, ctx.n(300, 2000))


# ------------------------------------------------------------------ C14
def check_c14(ctx):
    ctx.rule('random trees with literals of every form (ties between floats, subnormal, huge, suffixed), converted '
             'to decimal or hex literals of 32 or 64 bits. Non-trivial: a literal that is not exactly representable, '
             'or hex.')
    d = build.get_driver()

    lits = st.one_of(awkward_decimals().map(lambda t: ('F', t, '')), X.float_lits(suffixes=('', 'f32', 'f64')),
                     X.int_lits(suffixes=('', 'u32')), int_texts.map(lambda t: ('I', t, '')))
    base = st.one_of(lits, lits, st.sampled_from(['x', 'PI', 'f64::MAX']).map(lambda n: ('V', n)),
                     st.sampled_from([('B', 'true'), ('L', '"1.5"')]))
    tree = X.exprs(base, unary=('-', '!'), binary=('+', '-', '*', '/', '<', '&'), methods=[('mul_add', 2), ('sin', 0)],
                   fields=('x',), max_leaves=5)

    def numtype(case):
        e, ty, bits = X.from_json(case[0]), case[1], case[2]
        src = X.render(e)
        vals = [X.lit_value(k) for k in X.walk(e) if k[0] in 'FI']
        ctx.case('numtype', [src, ty, bits], bool(vals) and (ty == 'hex' or any(
            v.denominator & (v.denominator - 1) for v in vals)), '%s%d' % (ty, bits))
        what = 'use_number_type(%s, %d) of %s' % (ty, bits, src)
        f = ok(*d.call('pipe', src, 'numtype;;%s;;%d' % (ty, bits)), what)

        def same(a, b):
            if a[0] in 'FI':
                v = X.lit_value(a)
                if ty == 'hex':
                    if not (b[0] == 'C' and b[1] == ('V', 'f%d::from_bits' % bits) and len(b[2]) == 1
                            and b[2][0][0] == 'I' and b[2][0][2] in ('', 'u%d' % bits)):
                        raise Violation('%s: the literal %s became %s' % (what, X.render(a), X.render(b)))
                    got = '%0*x' % (bits // 4, int(b[2][0][1]))
                else:
                    if not (b[0] == 'F' and b[2] in ('', 'f%d' % bits) or b[0] == 'I' and b[2] == 'f%d' % bits):
                        raise Violation('%s: the literal %s became %s' % (what, X.render(a), X.render(b)))
                    got = nearest(Fraction(b[1]), bits)
                if got != nearest(v, bits):
                    raise Violation('%s: the literal %s became %s, bits %s, the nearest float is %s' % (
                        what, X.render(a), X.render(b), got, nearest(v, bits)))
                return
            ca, cb = X.children(a), X.children(b)
            if a[0] != b[0] or len(ca) != len(cb) or X.rebuild(a, [('V', 'q')] * len(ca)) != \
                    X.rebuild(b, [('V', 'q')] * len(cb)):
                raise Violation('%s: %s became %s' % (what, X.render(a), X.render(b)))
            for x, y in zip(ca, cb):
                same(x, y)

        same(e, X.parse(f[0]))
        g = ok(*d.call('fromstr', f[1]), 'parsing the result of ' + what)
        if ty == 'hex' or 'inf' not in f[1]:
            same(e, X.parse(g[0]))

    def fits(e):
        # literals that overflow have no finite float
        return all(X.lit_value(k) < Fraction(2) ** 127 for k in X.walk(e) if k[0] in 'FI')

    ctx.prop('numtype', st.tuples(tree.filter(fits), st.sampled_from(['decimal', 'hex']), st.sampled_from([32, 64])),
             numtype, ctx.n(3000, 60000))

    def other(case):
        e, ty, bits = X.from_json(case[0]), case[1], case[2]
        if ty in ('decimal', 'hex') and bits in (32, 64):
            return
        src = X.render(e)
        ctx.case('other', [src, ty, bits], any(k[0] in 'FI' for k in X.walk(e)))
        f = ok(*d.call('pipe', src, 'numtype;;%s;;%d' % (ty, bits)), 'use_number_type')
        if f[0] != ok(*d.call('pipe', src), 'parsing')[0]:
            raise Violation('use_number_type(%s, %d) changes %s to %s' % (ty, bits, src, f[1]))

    ctx.prop('other', st.tuples(tree, st.sampled_from(['decimal', 'hex', 'octal', '']),
                                st.sampled_from([32, 64, 16, 128, 0])), other, ctx.n(300, 3000))


CHECKS = {'C07': check_c07, 'C12': check_c12, 'C13': check_c13, 'C14': check_c14}
