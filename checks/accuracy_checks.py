"""The generated functions: accuracy, special values, constants, and the same from C and portable-simd."""
import os
import shutil

import numpy as np

import build

import numlib as N
from common import Violation

CHECKS = {}
PI = np.pi


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


HOOK = None


def lib(ctx, funcs, bits, **kw):
    """The evaluator of generated functions; code that cannot be generated or compiled is a violation."""
    if HOOK is not None:
        return HOOK(bits)
    try:
        return N.rust_evaluator(N.generate(funcs, bits, **kw), bits, '-f %s --num-bits %d' % (funcs, bits))
    except N.Broken as v:
        ctx.report('build', {'functions': funcs, 'bits': bits}, v)


def huge(bits):
    """C leaves conversions of floats beyond the integers undefined."""
    return 2e8 if bits == 32 else 1e18


def inside(lo, hi):
    return lambda x, *r: (x >= lo) & (x <= hi)


def rng_for(ctx, name):
    return np.random.default_rng(ctx.seed_for(name))


def one_arg(ctx, ev, fn, label, lo, hi, tol, special=(), n=None, where=None, **kw):
    """Random points of [lo, hi]; for 32 bits, when thorough, all of them."""
    bits = ev.bits
    e = N.EPS[bits]
    t = lambda x, r: tol(x, r) * e
    rng = rng_for(ctx, '%s%d%s' % (fn, bits, label))
    x = N.interval(rng, n or ctx.n(60000, 2000000), lo, hi, bits, special)
    dom = inside(lo, hi) if where is None else lambda v: (v >= lo) & (v <= hi) & where(v)
    N.check_points(ctx, ev, fn, label, [x[dom(x)]], t, inside=dom, **kw)
    if bits == 32 and ctx.tier == 'thorough' and ctx.replaying is None and HOOK is None:
        every_float(ctx, ev, fn, label, lo, hi, t, dom, **kw)


def every_float(ctx, ev, fn, label, lo, hi, t, dom, **kw):
    """All binary32 numbers of [lo, hi] (a fraction of those below 2^-12, and of very wide ranges)."""
    def ordered(v):
        b = int(np.float32(v).view(np.int32))
        return b if b >= 0 else -(b & 0x7fffffff)

    refname = kw.get('refname') or fn.split('.')[0]
    a, b, s = ordered(lo), ordered(hi), ordered(2.0 ** -12)
    parts = []
    for p, q, dense in ((a, min(b, -s), True), (max(a, -s), min(b, s), False), (max(a, s), b, True)):
        if p < q:
            parts.append((p, q, max(1, (q - p) >> 27) if dense else 97))
    for p, q, stride in parts:
        for c in range(p, q + 1, stride << 23):
            k = np.arange(c, min(c + (stride << 23), q + 1), stride, dtype=np.int64)
            x = np.where(k < 0, (-k) | 0x80000000, k).astype(np.uint32).view(np.float32).astype(np.float64)
            x = x[dom(x)]
            if len(x):
                N.check_points(ctx, ev, fn, label, [x], lambda v, r: t(v, r) + 1e-15 * np.abs(r),
                               reference=lambda v: N.ref64(refname, [v]), inside=dom, **kw)


def rel(k):
    return lambda x, r: k * np.abs(r)


def rel0(k):
    # far below the rounding of anything, underflow may count
    return lambda x, r: k * np.maximum(np.abs(r), 1e-30)


def const(k):
    return lambda x, r: k


MULT = [k * PI / 2 for k in range(-8, 9)]


@check('C24')
def c24(ctx):
    ctx.rule('Points of |x| <= 1000: uniform, log-uniform, short numbers, neighbours of multiples of pi/2 and of the ends, at all '
             'distances from them; compared with quad precision. Every distinct point counts (the worst one is sampled). Thorough: every '
             'binary32 number of the narrow ranges.')
    for bits in (32, 64):
        ev = lib(ctx, 'sin,cos,tan,sin_cos', bits)
        far = [k * PI / 2 for k in (50, 101, 300, 635, -77, -636)]
        for fn, rf in (('sin', 'sin'), ('cos', 'cos'), ('sin_cos.0', 'sin'), ('sin_cos.1', 'cos')):
            one_arg(ctx, ev, fn, 'pi', -PI, PI, lambda x, r: 1.5 + 2 * np.abs(x), MULT, refname=rf)
            one_arg(ctx, ev, fn, 'wide', -1000.0, 1000.0, lambda x, r: 1.5 + 2 * np.abs(x), MULT + far, refname=rf)
        one_arg(ctx, ev, 'sin', 'relative', -PI / 2, PI / 2, rel0(4), MULT)
        one_arg(ctx, ev, 'tan', 'relative', -1.1, 1.1, rel0(5), (0.0, 0.7))
        one_arg(ctx, ev, 'tan', 'wide', -1000.0, 1000.0, lambda x, r: (4 + 2 * np.abs(x)) * (1 + r * r), MULT + far,
                where=lambda x: np.abs(np.cos(x)) >= 0.001)


@check('C25')
def c25(ctx):
    ctx.rule('Points of the domains: uniform, log-uniform, close to 0, 1/2 and 1 at all distances; pairs for atan2 in all quadrants, of '
             'all ratios, on the axes and the diagonals; compared with quad precision.')
    for bits in (32, 64):
        ev = lib(ctx, 'asin,acos,atan,atan2', bits)
        sp = (0.0, 0.5, -0.5, np.sqrt(0.5), -np.sqrt(0.5), 0.7, 0.999, -0.999)
        edge = lambda x, r: 10 + 0.3 / np.sqrt(np.maximum(1 - x * x, 1e-300))
        one_arg(ctx, ev, 'asin', 'middle', -0.7, 0.7, const(2), sp)
        one_arg(ctx, ev, 'asin', 'relative', -0.7, 0.7, rel0(4), sp)
        one_arg(ctx, ev, 'asin', 'all', -1.0, 1.0, edge, sp)
        one_arg(ctx, ev, 'acos', 'middle', -0.7, 0.7, const(4 if bits == 32 else 7), sp)
        one_arg(ctx, ev, 'acos', 'all', -1.0, 1.0, edge, sp)
        big = 1e30
        one_arg(ctx, ev, 'atan', 'all', -big, big, const(4 if bits == 32 else 7), (1.0, -1.0, 0.0, 2.414, 0.414))
        one_arg(ctx, ev, 'atan', 'small', -8.0, 8.0, lambda x, r: (5 if bits == 32 else 17) * np.abs(r) + 1e-25, (1.0, -1.0, 0.0, 2.414, 0.414))
        rng = rng_for(ctx, 'atan2%d' % bits)
        n = ctx.n(60000, 2000000)
        s = np.exp2(rng.uniform(-30, 30, n))
        y, x = rng.uniform(-1, 1, n) * s, rng.uniform(-1, 1, n) * s
        y2 = np.exp2(rng.uniform(-30, 30, n)) * rng.choice([-1, 1], n)
        x2 = np.exp2(rng.uniform(-30, 30, n)) * rng.choice([-1, 1], n)
        d = np.exp2(rng.uniform(-10, 10, n))
        ax = np.array([0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -3.0, 1e-3])
        gy, gx = [g.ravel() for g in np.meshgrid(ax, ax)]
        ok = (gy != 0) | (gx != 0)
        t8 = np.tan(PI / 8) * d
        Y = np.concatenate([y, y2, d * rng.choice([-1, 1], n), N.step(N.to_bits(t8, bits), rng.integers(-9, 9, n), bits), gy[ok]])
        X = np.concatenate([x, x2, d * rng.choice([-1, 1], n), d, gx[ok]])
        e = N.EPS[bits]
        N.check_points(ctx, ev, 'atan2', 'plane', [Y, X], lambda y, x, r: 5 * e + 0 * r,
                       inside=lambda y, x: (y != 0) | (x != 0))


@check('C26')
def c26(ctx):
    ctx.rule('Points of the ranges of exp2, exp and exp_m1: uniform, log-uniform, neighbours of integers and half integers; compared '
             'with quad precision; saturation above and below checked separately.')
    for bits in (32, 64):
        ev = lib(ctx, 'exp2,exp,exp_m1', bits)
        # up to and including the last power of two
        lo, hi = (-126.0, 127.0) if bits == 32 else (-1022.0, 1023.0)
        l2 = np.log(2)
        halves = [k / 2 for k in range(-9, 10)]
        one_arg(ctx, ev, 'exp2', 'all', lo, hi, rel(1.5), halves + [lo, hi])
        one_arg(ctx, ev, 'exp2', 'small', -2.0, 2.0, rel(1.5), halves)
        one_arg(ctx, ev, 'exp', 'all', lo * l2, (hi - 0.01) * l2, lambda x, r: (1.5 + 0.8 * np.abs(x)) * np.abs(r), [h * l2 for h in halves])
        one_arg(ctx, ev, 'exp', 'small', -3.0, 3.0, lambda x, r: (1.5 + 0.8 * np.abs(x)) * np.abs(r), [h * l2 for h in halves])
        em = lambda x, r: 1.5 + (1.5 + 0.8 * np.abs(x)) * np.abs(r)
        one_arg(ctx, ev, 'exp_m1', 'all', lo * l2, (hi - 0.01) * l2, em, [h * l2 for h in halves])
        one_arg(ctx, ev, 'exp_m1', 'small', -3.0, 3.0, em, [h * l2 for h in halves])
        # Saturation.
        big = 1e30 if bits == 32 else 1e300
        if HOOK is not None:
            big = huge(bits)

        def sat(fn, label, a, b, value):
            x = N.interval(rng_for(ctx, fn + label), 5000, a, b, bits)
            x = x[(x >= a) & (x <= b)]
            N.check_points(ctx, ev, fn, label, [x], lambda x, r: 0 * x, reference=lambda x: np.full(len(x), value),
                           inside=inside(a, b))
        sat('exp2', 'overflow', hi + 1, big, np.inf)
        sat('exp2', 'underflow', -big, lo - 2, 0.0)
        sat('exp', 'overflow', (hi + 1) * l2 * 1.001, big, np.inf)
        sat('exp', 'underflow', -big, (lo - 2) * l2 * 1.001, 0.0)


@check('C27')
def c27(ctx):
    ctx.rule('Positive numbers over the whole normal range: log-uniform, uniform, neighbours of powers of two and of 1 at all distances; '
             'bases of log away from 1; compared with quad precision.')
    for bits in (32, 64):
        ev = lib(ctx, 'log2,ln,log10,log,ln_1p', bits)
        tiny, huge = (2.0 ** -126, 2.0 ** 127) if bits == 32 else (2.0 ** -1022, 2.0 ** 1023)
        sp = (1.0, 2.0, 0.5, 1.5, 0.75, 4.0, np.sqrt(2), np.sqrt(0.5), 10.0)
        # k units plus the rounding of the result itself
        shape = lambda k: lambda x, r: k + 1.5 * np.abs(r)
        for fn, k in (('log2', 2), ('ln', 1.5), ('log10', 2)):
            one_arg(ctx, ev, fn, 'all', tiny, huge, shape(k), sp)
            one_arg(ctx, ev, fn, 'decade', 0.1, 10.0, shape(k), sp)
        one_arg(ctx, ev, 'ln_1p', 'all', -0.9, 1e6, lambda x, r: 1.5 + np.abs(r), (0.0, 1.0, -0.5))
        rng = rng_for(ctx, 'log%d' % bits)
        n = ctx.n(80000, 2000000)
        x = np.concatenate([np.exp2(rng.uniform(-60, 60, n)), rng.uniform(0.01, 10, n)])
        b = np.concatenate([np.exp2(rng.uniform(-20, 20, n)), rng.choice([2.0, 10.0, np.e, 0.5, 3.0], n)])
        keep = np.abs(b - 1) > 0.05
        e = N.EPS[bits]
        N.check_points(ctx, ev, 'log', 'bases', [x[keep], b[keep]],
                       lambda x, b, r: e * (3 + 1 * np.abs(np.log2(np.abs(x))) + 3 * np.abs(r)) / np.abs(np.log2(b)) + e * np.abs(r),
                       inside=lambda x, b: (x >= 2.0 ** -60) & (x <= 2.0 ** 60) & (np.abs(b - 1) > 0.05) & (b > 0.9e-6) & (b < 1.1e6))


def pow_tol(e):
    # error of log2 (2 units and its rounding) times y, times ln 2, and of exp2
    return lambda x, y, r: e * np.abs(r) * (2 + np.abs(y) * (2 + np.abs(np.log2(np.abs(x)))))


@check('C28')
def c28(ctx):
    ctx.rule('Pairs of a base (log-uniform, near 1, negative for powi) and an exponent (uniform, integer, half integer, negative) whose '
             'power is in range; compared with quad precision. powi with the smaller integers everywhere.')
    for bits in (32, 64):
        ev = lib(ctx, 'powf,powi', bits)
        e = N.EPS[bits]
        cap = 100 if bits == 32 else 900
        rng = rng_for(ctx, 'pow%d' % bits)
        n = ctx.n(80000, 2000000)
        x = np.concatenate([np.exp2(rng.uniform(-30, 30, n)), rng.uniform(0.5, 2, n), 1 + rng.choice([-1, 1], n) * np.exp2(rng.uniform(-20, -2, n)),
                            rng.choice([0.5, 1.0, 2.0, 3.0, 4.0, 10.0, 0.1], n)])
        y = np.concatenate([rng.uniform(-8, 8, n), rng.uniform(-60, 60, n), rng.uniform(-200, 200, n), rng.integers(-40, 41, n) / 2])
        fits = lambda x, y: (np.abs(np.log2(np.abs(x)) * y) < cap) & (x != 0)
        ok = fits(x, y)
        N.check_points(ctx, ev, 'powf', 'positive', [x[ok], y[ok]], pow_tol(e), inside=lambda x, y: fits(x, y) & (x > 0))
        xi = np.concatenate([x, -x, -x])
        yi = np.concatenate([rng.integers(-12, 13, len(x)), rng.integers(-12, 13, len(x)), rng.integers(-300, 300, len(x))]).astype(float)
        ok = fits(xi, yi)
        N.check_points(ctx, ev, 'powi', 'both signs', [xi[ok], yi[ok]], pow_tol(e), inside=fits)


@check('C29')
def c29(ctx):
    ctx.rule('Points of the domains: uniform, log-uniform, near 0 and the ends of the domain at all distances; compared with quad precision.')
    for bits in (32, 64):
        ev = lib(ctx, 'hyperbolic', bits)
        top = 80.0 if bits == 32 else 700.0
        # the exponentials are off by (1 + 0.4|x|) units of their size
        one_arg(ctx, ev, 'sinh', 'all', -top, top, lambda x, r: 1 + (2 + 0.8 * np.abs(x)) * np.abs(r), (0.0, 1.0))
        one_arg(ctx, ev, 'cosh', 'all', -top, top, lambda x, r: (2 + 0.8 * np.abs(x)) * np.abs(r), (0.0, 1.0))
        one_arg(ctx, ev, 'sinh', 'small', -3.0, 3.0, lambda x, r: 1.5 + (2 + 0.8 * np.abs(x)) * np.abs(r), (0.0, 1.0))
        one_arg(ctx, ev, 'cosh', 'small', -3.0, 3.0, lambda x, r: (2 + 0.8 * np.abs(x)) * np.abs(r), (0.0, 1.0))
        top = huge(bits) if HOOK is not None else 1e30
        one_arg(ctx, ev, 'tanh', 'all', -top, top, const(2.5), (0.0, 1.0, -1.0, 9.0, 20.0, 44.0, 88.0))
        one_arg(ctx, ev, 'tanh', 'small', -25.0, 25.0, const(2.5), (0.0, 1.0, -1.0))
        big = 1e18
        one_arg(ctx, ev, 'asinh', 'all', -big, big, lambda x, r: 2.5 + 2 * np.abs(r), (0.0, 1.0, -1.0))
        one_arg(ctx, ev, 'asinh', 'small', -4.0, 4.0, lambda x, r: 2.5 + 2 * np.abs(r), (0.0, 1.0, -1.0))
        one_arg(ctx, ev, 'acosh', 'all', 1.001, big, lambda x, r: 3 + 2 * np.abs(r) + 1.0 / np.sqrt(np.maximum(x * x - 1, 1e-9)), (1.5, 2.0))
        one_arg(ctx, ev, 'acosh', 'small', 1.001, 4.0, lambda x, r: 3 + 2 * np.abs(r) + 1.0 / np.sqrt(np.maximum(x * x - 1, 1e-9)), (1.5, 2.0))
        one_arg(ctx, ev, 'atanh', 'all', -0.999, 0.999, lambda x, r: 1 + np.abs(r) + 0.5 / (1 - np.abs(x)), (0.0, 0.5, -0.5))


@check('C30')
def c30(ctx):
    ctx.rule('Both signs over almost the whole range of exponents: log-uniform, uniform, neighbours of powers of two; pairs of all ratios '
             'and signs for hypot; compared with quad precision.')
    for bits in (32, 64):
        ev = lib(ctx, 'recip,sqrt,cbrt,hypot', bits)
        lim = 2.0 ** (120 if bits == 32 else 1000)
        pw = [2.0 ** k for k in range(-8, 9)]
        e = N.EPS[bits]

        for fn, k, both in (('recip', 2, True), ('sqrt', 1.5, False), ('cbrt', 1.5, True)):
            signed(ctx, ev, fn, 1 / lim, lim, k, both, pw)
            signed(ctx, ev, fn, 0.25, 4.0, k, both, pw)
        rng = rng_for(ctx, 'hypot%d' % bits)
        n = ctx.n(60000, 2000000)
        m = 60 if bits == 32 else 500
        sg = lambda: rng.choice([-1.0, 1.0], n)
        k = np.exp2(rng.uniform(-m, m, n))
        x = np.concatenate([np.exp2(rng.uniform(-m, m, n)) * sg(), k * sg(), rng.uniform(-10, 10, n), k[:999], 0 * k[:999], rng.integers(-20, 20, n)])
        y = np.concatenate([np.exp2(rng.uniform(-m, m, n)) * sg(), k * np.exp2(rng.uniform(-14, 14, n)) * sg(), rng.uniform(-10, 10, n), 0 * k[:999], -k[:999],
                            rng.integers(-20, 20, n)])
        N.check_points(ctx, ev, 'hypot', 'plane', [x, y], lambda x, y, r: 2 * e * np.abs(r))
        # Both arguments near the ends of the range of exponents.
        m = 125 if bits == 32 else 1021
        k = np.exp2(np.concatenate([rng.uniform(-m, -m + 60, n // 2), rng.uniform(m - 60, m, n - n // 2)]))
        x, y = k * sg(), k * np.exp2(rng.uniform(-3, 0, n)) * sg()
        y = np.where(np.abs(y) < np.exp2(-m), x, y)
        x, y = np.concatenate([x, y]), np.concatenate([y, x])
        N.check_points(ctx, ev, 'hypot', 'ends', [x, y], lambda x, y, r: 2 * e * np.abs(r))


def signed(ctx, ev, fn, lo, hi, k, both, pw):
    bits = ev.bits
    e = N.EPS[bits]
    label = 'wide' if lo < 0.1 else 'near 1'
    rng = rng_for(ctx, '%s%d%s' % (fn, bits, label))
    x = N.interval(rng, ctx.n(40000, 2000000), lo, hi, bits, pw)
    if both:
        x = np.concatenate([x, -x])
    N.check_points(ctx, ev, fn, label, [x], lambda x, r: k * e * np.abs(r),
                   inside=lambda x: (np.abs(x) >= lo) & (np.abs(x) <= hi) & ((x > 0) | both))


@check('C31')
def c31(ctx):
    ctx.rule('Density: arguments within 8 deviations of means in -10..10, deviations 2^-4..2^4; quantile: probabilities in 0.0001..0.9999 '
             'with the same means and deviations; compared with quad precision. The quantile is also increasing and antisymmetric.')
    for bits in (32, 64):
        ev = lib(ctx, 'dnorm,qnorm', bits)
        e = N.EPS[bits]
        rng = rng_for(ctx, 'norm%d' % bits)
        n = ctx.n(60000, 2000000)
        z = np.concatenate([rng.uniform(-3, 3, n), rng.uniform(-8, 8, n)])
        N.check_points(ctx, ev, 'dnorm', 'standard', [z, 0 * z, 0 * z + 1], lambda x, m, s, r: e * np.abs(r) * (2.5 + 0.8 * x * x))
        s, m = np.exp2(rng.uniform(-4, 4, 2 * n)), rng.uniform(-10, 10, 2 * n)
        s, m = N.to_bits(s, bits), N.to_bits(m, bits)
        x = N.to_bits(m + z * s, bits)

        def tol(x, m, s, r):
            t = (x - m) / s
            # x - m is off by a rounding of itself
            return e * np.abs(r) * (4 + 3 * t * t) + 1e-300
        N.check_points(ctx, ev, 'dnorm', 'general', [x, m, s], tol, inside=lambda x, m, s: (s > 0.05) & (np.abs((x - m) / s) < 8.5))
        for lo, hi, k in ((0.1, 0.9, 0.003 if bits == 32 else 0.0005), (0.01, 0.99, 0.03 if bits == 32 else 0.006),
                          (0.0001, 0.9999, 0.7 if bits == 32 else 0.3)):
            p = N.interval(rng, n // 3, lo, hi, bits, (0.5, 0.25, 0.75))
            N.check_points(ctx, ev, 'qnorm', '%s..%s' % (lo, hi), [p, 0 * p, 0 * p + 1], lambda p, m, s, r, k=k: k + 0 * r)
            j = rng.integers(0, len(m), len(p))
            N.check_points(ctx, ev, 'qnorm', '%s..%s general' % (lo, hi), [p, m[j], s[j]],
                           lambda p, m, s, r, k=k: k * s + 4 * e * (np.abs(r) + np.abs(m)) + 0 * r)


@check('C39')
def c39(ctx):
    ctx.rule('round: numbers of |x| < 2^21 (2^50), ties and their neighbours included; negate_on_odd: integers and values; nextafter: '
             'positive numbers; estimates over the whole range of exponents, against the true functions.')
    for bits in (32, 64):
        ev = lib(ctx, 'round,negate_on_odd,nextafter,recip_approx,sqrt_approx,cbrt_approx', bits)
        rng = rng_for(ctx, 'helpers%d' % bits)
        n = ctx.n(40000, 1000000)
        lim = 2.0 ** (21 if bits == 32 else 50)
        k = rng.integers(-1000, 1000, n) + 0.5
        x = np.concatenate([N.interval(rng, n, -lim, lim, bits, (0.0, 0.5, -0.5, 1.5, 2.5)), rng.uniform(-10, 10, n), k, N.step(N.to_bits(k, bits), 1, bits),
                            N.step(N.to_bits(k, bits), -1, bits), rng.integers(-int(lim), int(lim), n).astype(float)])
        half = N.to_bits(np.array([0.5]), bits)
        x = x[(np.abs(x) != N.step(half, -1, bits)[0])]      # the float below a half is a documented limit
        N.check_points(ctx, ev, 'round', 'all', [x], lambda x, r: 0 * x, inside=lambda x: (np.abs(x) <= lim) & (
            np.abs(x) != N.step(half, -1, bits)[0]))
        a = np.concatenate([rng.integers(-1000, 1000, n), rng.integers(-2 ** 22, 2 ** 22, n)]).astype(float)
        b = np.concatenate([rng.uniform(-5, 5, n), np.exp2(rng.uniform(-60, 60, n)) * rng.choice([-1, 1], n)])
        N.check_points(ctx, ev, 'negate_on_odd', 'all', [a, b], lambda a, b, r: 0 * a,
                       reference=lambda a, b: np.where(np.floor(a) % 2 == 1, -b, b), inside=lambda a, b: a == np.floor(a), refname='id')
        p = N.interval(rng, n, 2.0 ** -120, 2.0 ** 120, bits, (1.0, 2.0))
        N.check_points(ctx, ev, 'nextafter', 'positive', [p], lambda x, r: 0 * x, reference=lambda x: N.step(x, 1, bits), refname='id',
                       inside=lambda x: x > 0)
        lim = 2.0 ** (120 if bits == 32 else 1000)
        for fn, sg in (('recip_approx', True), ('sqrt_approx', False), ('cbrt_approx', True)):
            p = N.interval(rng, n, 1 / lim, lim, bits, [2.0 ** k for k in range(-9, 10)])
            if sg:
                p = np.concatenate([p, -p])
            N.check_points(ctx, ev, fn, 'all', [p], lambda x, r: 0.1 * np.abs(r), inside=lambda x: (np.abs(x) >= 1 / lim) & (np.abs(x) <= lim) & ((x > 0) | sg))


# What can be asked for; functions that these need besides are their own affair.
NAMED = set('round negate_on_odd recip_approx sqrt_approx cbrt_approx nextafter sinh cosh tanh asinh acosh atanh asin acos atan atan2 exp2 exp exp_m1 '
            'log2 ln_1p ln log10 log powf powi sqrt cbrt recip hypot runif dnorm pnorm qnorm rnorm sin cos tan sin_cos'.split())
SELECTION = 'all,hypot,negate_on_odd,recip_approx,sqrt_approx,cbrt_approx'


@check('C36')
def c36(ctx):
    global HOOK
    ctx.rule('The generated C compiled by gcc: the same points and references as for Rust (C24 to C31 and C39, a quarter of the points); '
             'mul_add is not fused and 32 bit literals are doubles in C, so 1.2 times the errors are allowed. Every distinct point counts.')
    evs = {}
    for bits in (32, 64):
        try:
            ev = N.c_evaluator(N.generate(SELECTION + ',nextafter', bits, exclude='runif,rnorm,sin_cos', language='c'), bits, 'C, %d bits' % bits, 'ds%d_' % bits)
        except N.Broken as v:
            ctx.report('build', {'bits': bits}, v)
        ev.prefix, ev.scale, ev.skip = 'C ', 1.2, {'sin_cos.0', 'sin_cos.1'}
        evs[bits] = ev
    HOOK = evs.get
    n, ctx.n = ctx.n, lambda q, t=None: max(1000, n(q, t) // 4)
    rule, ctx.rule = ctx.rule, lambda text: None
    try:
        for c in ('C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C39'):
            CHECKS[c](ctx)
    finally:
        HOOK, ctx.n, ctx.rule = None, n, rule


def outside(rng, n, edge, sign, bits):
    """Numbers beyond the edge (sign 1: above, -1: below), at all distances, and the infinity."""
    big = 120 if bits == 32 else 1000
    d = np.exp2(np.concatenate([rng.uniform(-23 if bits == 32 else -52, 8, n), rng.uniform(0, big, n)]))
    x = N.to_bits(edge + sign * d, bits)
    e = N.to_bits(np.array([edge]), bits)
    x = np.concatenate([x, *[N.step(e, sign * j * (1 if edge > 0 else -1), bits) for j in range(1, 40) if edge], [sign * np.inf]])
    return x[(x > edge) if sign > 0 else (x < edge)]


@check('C33')
def c33(ctx):
    ctx.rule('NaNs of random payload and sign; numbers outside of the domain at all distances from its ends, infinities included; the '
             'limits at 0, 1 and infinity. Expected exactly (atan of infinity within a unit).')
    inf, nan = np.inf, np.nan
    for bits in (32, 64):
        ev = lib(ctx, 'sin,cos,tan,sin_cos,invtrig,logexp,hyperbolic,recip_sqrt', bits)
        e = N.EPS[bits]
        rng = rng_for(ctx, 'special%d' % bits)
        n = ctx.n(3000, 200000)

        def exact(fn, label, x, want, tol=0.0, **kw):
            N.check_points(ctx, ev, fn, label, [x], lambda v, r: tol + 0 * v, reference=want, **kw)

        def pairs(fn, label, table, tol=0.0):
            for x, y in table:
                exact(fn, '%s %r' % (label, x), np.array([float(x)]), lambda v, y=y: np.full(len(v), float(y)), tol)
        # NaN in, NaN out.
        if bits == 32:
            raw = (rng.integers(1, 1 << 23, n) | (0xff << 23) | (rng.integers(0, 2, n) << 31)).astype(np.uint32).view(np.float32).astype(np.float64)
        else:
            raw = (rng.integers(1, 1 << 52, n) | (0x7ff << 52)).astype(np.int64).view(np.float64) * rng.choice([-1.0, 1.0], n)
        for fn in ('sin', 'cos', 'tan', 'sin_cos.0', 'sin_cos.1', 'asin', 'acos', 'atan', 'exp2', 'exp', 'exp_m1', 'log2', 'ln', 'log10', 'ln_1p',
                   'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'sqrt', 'cbrt', 'recip'):
            x = raw

            def run(case, fn=fn):
                y = ev.call(fn, x)
                if case is None:
                    ctx.batch('%s%d NaN' % (fn, bits), len(x), len(x))
                if not np.isnan(y).all():
                    ctx.report('%s%d NaN' % (fn, bits), {}, Violation('%s%d(NaN) is %r' % (fn, bits, float(y[~np.isnan(y)][0]))))
            ctx.numeric('%s%d NaN' % (fn, bits), run)
        # Outside of the domain.
        none = lambda v: np.full(len(v), nan)
        for fn, edge, sign in (('asin', 1.0, 1), ('asin', -1.0, -1), ('acos', 1.0, 1), ('acos', -1.0, -1), ('acosh', 1.0, -1), ('atanh', 1.0, 1),
                               ('atanh', -1.0, -1), ('ln', 0.0, -1), ('log2', 0.0, -1), ('log10', 0.0, -1), ('ln_1p', -1.0, -1)):
            x = outside(rng, n, edge, sign, bits)
            exact(fn, 'beyond %r' % edge, x, none, inside=lambda v, edge=edge, sign=sign: (v - edge) * sign > 0)
        x = outside(rng, n, 0.0, -1, bits)
        b = rng.choice([2.0, 10.0, 0.5, 3.0, 1e3], len(x))
        N.check_points(ctx, ev, 'log', 'negative', [x, b], lambda x, b, r: 0 * x, reference=lambda x, b: np.full(len(x), nan), inside=lambda x, b: x < 0)
        N.check_points(ctx, ev, 'log', 'negative base', [b, x], lambda x, b, r: 0 * x, reference=lambda x, b: np.full(len(x), nan), inside=lambda x, b: b < 0)
        # Limits.
        for fn in ('ln', 'log2', 'log10'):
            pairs(fn, 'limit', ((0.0, -inf), (-0.0, -inf), (inf, inf), (1.0, 0.0)))
        pairs('ln_1p', 'limit', ((-1.0, -inf), (inf, inf), (0.0, 0.0)))
        pairs('exp', 'limit', ((inf, inf), (-inf, 0.0), (0.0, 1.0)))
        pairs('exp2', 'limit', ((inf, inf), (-inf, 0.0), (0.0, 1.0)))
        pairs('atan', 'limit', ((inf, PI / 2), (-inf, -PI / 2)), e)
        pairs('atanh', 'limit', ((1.0, inf), (-1.0, -inf), (0.0, 0.0)))
        pairs('acosh', 'limit', ((1.0, 0.0), (inf, inf)))
        pairs('asinh', 'limit', ((inf, inf), (-inf, -inf), (0.0, 0.0)))
        pairs('sinh', 'limit', ((inf, inf), (-inf, -inf), (0.0, 0.0)))
        pairs('cosh', 'limit', ((inf, inf), (-inf, inf), (0.0, 1.0)))
        pairs('tanh', 'limit', ((inf, 1.0), (-inf, -1.0), (0.0, 0.0)))
        pairs('acos', 'limit', ((1.0, 0.0), (-1.0, PI)), 4 * e)
        pairs('asin', 'limit', ((1.0, PI / 2), (-1.0, -PI / 2)), 4 * e)
        for fn in ('sin', 'tan', 'asin', 'atan', 'sin_cos.0'):
            pairs(fn, 'limit', ((0.0, 0.0), (-0.0, 0.0)))
        for fn in ('cos', 'sin_cos.1'):
            pairs(fn, 'limit', ((0.0, 1.0), (-0.0, 1.0)))
        # Saturation of the hyperbolic functions.
        top = 90.0 if bits == 32 else 712.0
        x = outside(rng, n, top, 1, bits)
        for fn, s in (('sinh', -1.0), ('cosh', 1.0)):
            exact(fn, 'overflow', x, lambda v: np.full(len(v), inf), inside=lambda v: v >= top)
            exact(fn, 'overflow below', -x, lambda v, s=s: np.full(len(v), s * inf), inside=lambda v: v <= -top)
        x = outside(rng, n, 44.0, 1, bits)
        exact('tanh', 'saturated', np.concatenate([x, -x]), lambda v: np.sign(v), inside=lambda v: np.abs(v) > 44)


@check('C40')
def c40(ctx):
    ctx.rule('Pairs of an argument and its mirror image over the domains; all powers of two that exp2 and log2 reach; equal exactly. Every '
             'distinct argument counts.')
    for bits in (32, 64):
        ev = lib(ctx, 'sin,cos,tan,sin_cos,invtrig,logexp,hyperbolic,recip_sqrt,hypot,round', bits)
        rng = rng_for(ctx, 'mirror%d' % bits)
        n = ctx.n(20000, 1000000)
        big = 1e18
        for fn, top, s in (('sin', 1000, -1), ('cos', 1000, 1), ('tan', 1000, -1), ('sin_cos.0', 1000, -1), ('sin_cos.1', 1000, 1), ('asin', 1, -1),
                           ('atan', big, -1), ('sinh', 80, -1), ('cosh', 80, 1), ('asinh', big, -1), ('atanh', 0.9999, -1), ('cbrt', big, -1),
                           ('recip', big, -1), ('round', 2.0 ** 20, -1)):
            x = N.interval(rng, n, -float(top), float(top), bits, MULT if top == 1000 else (1.0, 2.0))
            x = np.abs(x[x != 0])
            N.check_points(ctx, ev, fn, 'mirrored', [x], lambda v, r: 0 * v, reference=lambda v, s=s: s * ev.call(fn, -v),
                           inside=lambda v: v != 0, refname='mirrored')
        x, y = N.to_bits(rng.normal(size=n) * 10, bits), N.to_bits(np.exp2(rng.uniform(-20, 20, n)), bits)
        zero = lambda x, y, r: 0 * x
        N.check_points(ctx, ev, 'hypot', 'mirrored', [x, y], zero, reference=lambda x, y: ev.call('hypot', -x, y), refname='mirrored')
        N.check_points(ctx, ev, 'hypot', 'mirrored y', [x, y], zero, reference=lambda x, y: ev.call('hypot', x, -y), refname='mirrored')
        N.check_points(ctx, ev, 'hypot', 'swapped', [x, y], zero, reference=lambda x, y: ev.call('hypot', y, x), refname='mirrored')
        N.check_points(ctx, ev, 'atan2', 'mirrored', [x, y], zero, reference=lambda x, y: -ev.call('atan2', -x, y), refname='mirrored', inside=lambda x, y: x != 0)
        N.check_points(ctx, ev, 'atan2', 'mirrored left', [x, -y], zero, reference=lambda x, y: -ev.call('atan2', -x, y), refname='mirrored', inside=lambda x, y: x != 0)
        k = rng.integers(-9, 10, n).astype(float)
        N.check_points(ctx, ev, 'powi', 'mirrored', [x, k], zero, reference=lambda x, k: ev.call('powi', -x, k) * np.where(k % 2 == 1, -1, 1),
                       inside=lambda x, k: x != 0, refname='mirrored')
        # Powers of two.
        m = 126 if bits == 32 else 1022
        k = np.arange(-m, m + 2).astype(float)
        N.check_points(ctx, ev, 'exp2', 'integers', [k], lambda v, r: 0 * v, reference=np.exp2, inside=lambda v: v == np.floor(v))
        N.check_points(ctx, ev, 'log2', 'powers', [np.exp2(k)], lambda v, r: 0 * v, reference=np.log2, inside=lambda v: np.log2(v) == np.floor(np.log2(v)))


@check('C37')
def c37(ctx):
    ctx.rule('Points of all magnitudes and signs, special values included, through the portable-simd methods (vectors of 4 and 7 lanes) and '
             'through the scalar Rust functions: the same bits (ln_1p within 3 units, because its scalar version uses the ln of the '
             'standard library). Every distinct point counts.')
    names = 'acos acosh asin asinh atan atan2 atanh cbrt cos cosh dnorm exp exp2 exp_m1 hypot ln ln_1p log log10 log2 negate_on_odd powf powi qnorm ' \
            'nextafter recip recip_approx sqrt_approx cbrt_approx round sin sinh sqrt tan tanh'.split()
    sel, exc = SELECTION + ',nextafter', 'runif,rnorm,sin_cos'
    for bits in (32, 64):
        try:
            scalar = N.rust_evaluator(N.generate(sel, bits, exclude=exc), bits, 'scalar Rust, %d bits' % bits)
            code = N.generate(sel, bits, exclude=exc, language='portable-simd')
            simds = [N.simd_evaluator(code, bits, 'portable-simd, %d bits, %d lanes' % (bits, l), l) for l in (4, 7)]
        except N.Broken as v:
            ctx.report('build', {'bits': bits}, v)
        rng = rng_for(ctx, 'simd%d' % bits)
        n = ctx.n(20000, 1000000)
        e = N.EPS[bits]
        sp = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 0.5, 2.0])
        for fn in names:
            x = np.concatenate([rng.uniform(-1.2, 1.2, n), rng.normal(size=n) * 5, rng.uniform(-300, 300, n), np.exp2(rng.uniform(-60, 60, n)) * rng.choice([-1, 1], n)])
            p = rng.permutation(x)
            x = np.concatenate([x, np.repeat(sp, len(sp))])
            p = np.concatenate([p, np.tile(sp, len(sp))])
            a = [x]
            if fn == 'negate_on_odd':
                a = [rng.integers(-2 ** 20, 2 ** 20, len(x)).astype(float), p]
            elif fn == 'powi':
                a = [x, np.concatenate([rng.integers(-40, 41, len(x) // 2), rng.integers(-2000, 2000, len(x) - len(x) // 2)]).astype(float)]
            elif N.arity(fn) == 2:
                a = [x, p]
            elif fn == 'qnorm':
                a = [np.abs(x) % 1.0, p, np.abs(rng.permutation(x))]
            elif N.arity(fn) == 3:
                a = [x, p, np.abs(rng.permutation(x))]
            for l, s in zip((4, 7), simds):
                q = [v[:len(v) // (1 if l == 4 else 5)] for v in a]
                N.agree(ctx, '%s%d lanes %d' % (fn, bits, l), scalar, s, fn, q,
                        (lambda x, r, s: e * (1.5 + 3 * np.abs(r))) if fn == 'ln_1p' else None)


def splitmix(index):
    """The outputs of splitmix64 seeded with 0, by position."""
    with np.errstate(over='ignore'):
        z = (index.astype(np.uint64) + np.uint64(1)) * np.uint64(0x9e3779b97f4a7c15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xbf58476d1ce4e5b9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94d049bb133111eb)
        return z ^ (z >> np.uint64(31))


def uniform(index, lo, hi, bits):
    z = splitmix(index)
    if bits == 32:
        x = ((z.astype(np.uint32) >> np.uint32(2)) | np.uint32(0x3f800000)).view(np.float32) - np.float32(1)
        lo, hi = lo.astype(np.float32), hi.astype(np.float32)
    else:
        x = ((z >> np.uint64(2)) | np.uint64(0x3ff0000000000000)).view(np.float64) - 1.0
    return (x * (hi - lo) + lo).astype(np.float64)


@check('C32')
def c32(ctx):
    ctx.rule('Indices: small, random below 2^53, consecutive and strided sequences; ranges of both signs and all magnitudes; means and '
             'deviations. The functions as Rust and as C. Each index is compared with a reference splitmix64; whole sequences with the distribution (Kolmogorov-Smirnov '
             'and serial correlation).')
    from scipy import special
    evs = []
    for bits in (32, 64):
        evs.append(lib(ctx, 'runif,rnorm', bits))
        try:
            ev = N.c_evaluator(N.generate('runif,rnorm', bits, language='c'), bits, 'C, %d bits' % bits, 'ds%d_' % bits)
        except N.Broken as v:
            ctx.report('build', {'bits': bits}, v)
        ev.prefix = 'C '
        evs.append(ev)
    for ev in evs:
        bits = ev.bits
        rng = rng_for(ctx, 'random%d' % bits)
        n = ctx.n(50000, 2000000)
        start = int(rng.integers(0, 2 ** 40))
        stride = int(rng.integers(1, 2 ** 12))
        seqs = {'consecutive': np.arange(n), 'later': start + np.arange(n), 'strided': start + stride * np.arange(n),
                'powers': 2 ** rng.integers(0, 53, n) - rng.integers(0, 2, n), 'random': rng.integers(0, 2 ** 53, n)}
        for name, idx in seqs.items():
            one = np.ones(len(idx))
            exact_uniform(ctx, ev, name, idx, 0 * one, one)
            if name in ('consecutive', 'later', 'strided', 'random'):
                x = raw_call(ev, 'runif', idx, 0 * one, one)

                def dist(case, x=x, name=name, ev=ev, bits=bits):
                    s = np.sort(x)
                    d = np.abs(s - (np.arange(len(s)) + 0.5) / len(s)).max()
                    c = np.corrcoef(x[:-1], x[1:])[0, 1]
                    lim = 4.0 / np.sqrt(len(s))
                    if case is None:
                        ctx.batch('%srunif%d distribution %s' % (ev.prefix, bits, name), 1, 1, [{'ks': float(d), 'serial': float(c), 'n': len(s)}])
                    if not (d < lim and abs(c) < 2 * lim and s[0] >= 0 and s[-1] < 1):
                        ctx.report('%srunif%d distribution %s' % (ev.prefix, bits, name), {'seed': ctx.seed}, Violation(
                            'runif%d over %s indices: distance %.4f, serial correlation %.4f, range %r..%r' % (bits, name, d, c, s[0], s[-1])))
                ctx.numeric('%srunif%d distribution %s' % (ev.prefix, bits, name), dist)
        # Ranges.
        i = rng.integers(0, 2 ** 40, n)
        lo = N.to_bits(rng.uniform(-1, 1, n) * np.exp2(rng.uniform(-10, 10, n)), bits)
        hi = N.to_bits(lo + np.exp2(rng.uniform(-10, 10, n)), bits)
        exact_uniform(ctx, ev, 'ranges', i, lo, hi)
        # Normal: the quantile of the uniform number of the same index.
        m, s = N.to_bits(rng.uniform(-10, 10, n), bits), N.to_bits(np.exp2(rng.uniform(-4, 4, n)), bits)
        normal(ctx, ev, i, m, s, special)


def raw_call(ev, fn, idx, *a):
    # indices below 2^53 are exact doubles
    return ev.call(fn, idx.astype(float), *a)


def exact_uniform(ctx, ev, name, idx, lo, hi):
    """runif against the reference, with indices that no 32 bit float holds."""
    test = '%srunif%d %s exact' % (ev.prefix, ev.bits, name)

    def run(case):
        a = (idx, lo, hi) if case is None else [np.array([v]) for v in (case['index'], float.fromhex(case['min']), float.fromhex(case['max']))]
        y, want = raw_call(ev, 'runif', *a), uniform(a[0], N.to_bits(a[1], ev.bits), N.to_bits(a[2], ev.bits), ev.bits)
        if case is None:
            ctx.batch(test, len(y), len(y), [{'index': int(a[0][0]), 'min': float(a[1][0]), 'max': float(a[2][0]), 'value': float(y[0])}])
        # on 0..1 the number is exact; elsewhere the order of the arithmetic is free
        unit = (np.asarray(a[1]) == 0) & (np.asarray(a[2]) == 1)
        lim = np.where(unit, 0.0, 3 * N.EPS[ev.bits] * np.maximum(np.abs(a[1]), np.abs(a[2])))
        bad = np.nonzero(~(np.abs(y - want) <= lim))[0]
        if len(bad):
            k = min(bad, key=lambda j: a[0][j])
            ctx.report(test, {'index': int(a[0][k]), 'min': float(a[1][k]).hex(), 'max': float(a[2][k]).hex()}, Violation(
                '%srunif%d(%d, %r, %r) is %r, splitmix64 gives %r' % (ev.prefix, ev.bits, a[0][k], float(a[1][k]), float(a[2][k]), float(y[k]), float(want[k]))))
    ctx.numeric(test, run)


def normal(ctx, ev, idx, m, s, special):
    bits = ev.bits
    e = N.EPS[bits]
    test = '%srnorm%d' % (ev.prefix, bits)

    def run(case):
        i, mm, ss = (idx, m, s) if case is None else [np.array([v]) for v in (case['index'], float.fromhex(case['mean']), float.fromhex(case['sigma']))]
        one = np.ones(len(i))
        u = uniform(i, N.to_bits(1e-6 * one, bits), N.to_bits((np.float32(1) - np.float32(1e-6) if bits == 32 else 1 - 1e-6) * one, bits), bits)
        want = special.ndtri(u)
        tail = np.minimum(u, 1 - u)
        k = np.where(tail >= 0.1, 0.003, np.where(tail >= 0.01, 0.03, np.where(tail >= 0.0001, 0.7, np.inf)))
        if bits == 64:
            k = np.where(tail >= 0.1, 0.0005, np.where(tail >= 0.01, 0.006, np.where(tail >= 0.0001, 0.3, np.inf)))
        y = raw_call(ev, 'rnorm', i, mm, ss)
        z = (y - mm) / ss
        err = np.abs(z - want) / (k + 4 * e * (np.abs(mm) / ss + 4))
        # beyond the range of the quantile only the side is sure
        err = np.where(np.isinf(k), np.where(z * want > 0, 0.0, 2.0), err)
        if case is None:
            ctx.batch(test, len(y), len(y), [{'index': int(i[0]), 'mean': float(mm[0]), 'sigma': float(ss[0]), 'value': float(y[0])}])
            std = raw_call(ev, 'rnorm', idx, 0 * one, one)
            srt = np.sort(std)
            d = np.abs(special.ndtr(srt) - (np.arange(len(srt)) + 0.5) / len(srt)).max()
            if not d < 4.0 / np.sqrt(len(srt)):
                ctx.report(test, {'index': int(i[0]), 'mean': '0', 'sigma': '1'}, Violation('rnorm%d is not normal: distance %.4f' % (bits, d)))
        bad = np.nonzero(~(err <= 1))[0]
        if len(bad):
            j = min(bad, key=lambda j: i[j])
            ctx.report(test, {'index': int(i[j]), 'mean': float(mm[j]).hex(), 'sigma': float(ss[j]).hex()}, Violation(
                'rnorm%d(%d, %r, %r) is %r; the quantile of its uniform number %r is %r' % (
                    bits, i[j], float(mm[j]), float(ss[j]), float(y[j]), float(u[j]), float(mm[j] + ss[j] * want[j]))))
    ctx.numeric(test, run)


# ------------------------------------------------------------------ C41
CHECKED_CASE = '''"%s" => for r in v.chunks_exact(%d) {
    match std::panic::catch_unwind(|| { let y = %s; [%s] }) { Ok(w) => { o.push(0); o.extend(w); } Err(_) => o.extend([1, 0, 0]) }
},'''
CHECKED_MAIN = '''#![allow(warnings)]
mod g {
%s
pub fn run(n: &str, v: &[u64], o: &mut Vec<u64>) { match n { %s _ => panic!("no such function") } }
}
fn main() {
    use std::io::*;
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = vec![];
    stdin().read_to_end(&mut b).unwrap();
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut o: Vec<u64> = vec![];
    g::run(&std::env::args().nth(1).unwrap(), &v, &mut o);
    let w: Vec<u8> = o.iter().flat_map(|x| x.to_le_bytes()).collect();
    stdout().write_all(&w).unwrap();
}
'''


def word_type(t, bits):
    t = {'fty': 'f%d' % bits, 'ity': 'i%d' % bits, 'uty': 'u%d' % bits, 'usize': 'u64', 'isize': 'i64'}.get(t, t)
    return t if t in ('f32', 'f64', 'i32', 'i64', 'u32', 'u64') else None


def random_words(rng, n, t):
    """Arguments of a type, as words: all bit patterns, and numbers that mean something."""
    w = int(t[1:])
    raw = rng.integers(0, 2 ** 64, n, dtype=np.uint64) >> np.uint64(64 - w)
    pick = rng.random(n)
    if t[0] == 'f':
        f, u = (np.float32, np.uint32) if w == 32 else (np.float64, np.uint64)
        info = np.finfo(f)
        sp = np.array([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -2.5, np.inf, -np.inf, np.nan, info.max, info.min, info.tiny, info.tiny / 2, -info.tiny,
                       2.0 ** 31, -2.0 ** 31, 2.0 ** 32, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 127.0, 128.0, -126.0, -149.0, 1023.0, 1024.0, -1074.0, np.pi], dtype=f)
        small = (rng.normal(size=n) * np.exp2(rng.integers(-10, 11, n))).astype(f).view(u).astype(np.uint64)
        whole = np.round(rng.normal(size=n) * np.exp2(rng.integers(0, 40, n))).astype(f).view(u).astype(np.uint64)
        some = rng.choice(np.append(sp.view(u), [2 ** w - 1, 2 ** (w - 1) - 1, 2 ** (w - 1) + 1]), n).astype(np.uint64)
        return np.where(pick < 0.3, raw, np.where(pick < 0.7, small, np.where(pick < 0.8, whole, some)))
    top = np.uint64(2 ** w - 1)
    sp = np.array([0, 1, 2, 2 ** w - 1, 2 ** w - 2, 2 ** (w - 1), 2 ** (w - 1) - 1, 2 ** (w - 1) + 1, 2 ** 31, 2 ** 32 - 1], dtype=np.uint64) & top
    small = rng.integers(-1000, 1000, n).astype(np.int64).view(np.uint64) & top
    return np.where(pick < 0.4, raw, np.where(pick < 0.7, small, rng.choice(sp, n)))


def show_word(x, t):
    w = int(t[1:])
    b = np.array([x], dtype=np.uint64).astype(np.uint32 if w == 32 else np.uint64)
    if t[0] == 'f':
        return repr(float(b.view(np.float32 if w == 32 else np.float64)[0]))
    return str(int(b.view({'i32': np.int32, 'i64': np.int64}[t])[0]) if t[0] == 'i' else int(x))


@check('C41')
def c41(ctx):
    ctx.rule('Every generated function that can be asked for, helpers included, with arguments of any bit pattern (all floats, integers up to the ends of their types): '
             'compiled without optimisation and with overflow checks and debug assertions it returns, and gives what the optimised build '
             'without checks gives, bit by bit (any NaN for a NaN). Distinct by function and arguments.')
    for bits in (32, 64):
        for nt in ('decimal', 'hex') if ctx.tier == 'thorough' else ('decimal',):
            what = '-f %s --num-bits %d --number-type %s' % (SELECTION + ',nextafter', bits, nt)
            try:
                code = N.generate(SELECTION + ',nextafter,sin_cos', bits, number_type=nt)
            except N.Broken as v:
                ctx.report('build', {'bits': bits}, v)
            sigs, cases = {}, []
            for fn, (types, ret) in N.rust_signatures(code).items():
                ts = [word_type(t, bits) for t in types]
                rets = [word_type(t, bits) for t in ret.strip('()').split(',') if t]
                if fn not in NAMED or None in ts or None in rets or not 1 <= len(rets) <= 2:
                    continue
                args = ['%s::from_bits(r[%d] as u%s)' % (t, i, t[1:]) if t[0] == 'f' else 'r[%d] as %s as %s' % (i, t, g)
                        for i, (t, g) in enumerate(zip(ts, types))]
                res = ['y%s%s as u64' % ('' if len(rets) == 1 else '.%d' % i, '.to_bits()' if t[0] == 'f' else '') for i, t in enumerate(rets)]
                cases.append(CHECKED_CASE % (fn, len(ts), '%s(%s)' % (fn, ', '.join(args)), ', '.join((res + ['0u64'])[:2])))
                sigs[fn] = ts, rets
            d = build.scratch_dir('checked')
            src = build.write(os.path.join(d, 'm.rs'), CHECKED_MAIN % (code, '\n'.join(cases)))
            exes = []
            for name, flags in (('checked', ['-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'opt-level=0']),
                                ('plain', ['-C', 'overflow-checks=off', '-C', 'debug-assertions=off', '-C', 'opt-level=3'])):
                exe = os.path.join(d, name)
                r = build.run(['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'debuginfo=0', src, '-o', exe] + flags)
                if r.returncode:
                    ctx.report('build', {'bits': bits}, Violation('%s does not compile: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500])))
                exes.append(exe)
            for fn, (ts, rets) in sigs.items():
                checked_function(ctx, bits, nt, fn, ts, rets, exes)
            shutil.rmtree(d, True)


def checked_function(ctx, bits, nt, fn, ts, rets, exes):
    label = '%s%d %s' % (fn, bits, nt)
    rng = rng_for(ctx, label)

    def results(a):
        def go(exe):
            return N.pump([exe, fn], np.ascontiguousarray(a).view(np.float64), 3, label).view(np.uint64).reshape(-1, 3)
        x, y = go(exes[0]), go(exes[1])
        same = np.ones(len(a), bool)
        for i, t in enumerate(rets):
            u, v = x[:, 1 + i], y[:, 1 + i]
            eq = u == v
            if t[0] == 'f':
                nan = (lambda w: np.isnan(w.astype(np.uint32).view(np.float32))) if t == 'f32' else (lambda w: np.isnan(np.ascontiguousarray(w).view(np.float64)))
                eq |= nan(u) & nan(v)
            same &= eq
        return (x[:, 0] != 0) | (y[:, 0] != 0), same, x, y

    def bad(a):
        p, same, _, _ = results(a)
        return p | ~same

    def run(case):
        if case is None:
            n = ctx.n(10000, 500000)
            a = np.unique(np.stack([random_words(rng, n, t) for t in ts], axis=1), axis=0)
            ctx.batch(label, len(a), len(a), [{'args': [show_word(w, t) for w, t in zip(a[len(a) // 2], ts)]}])
            wrong = np.nonzero(bad(a))[0]
            if not len(wrong):
                return
            row = list(min((a[i] for i in wrong[:5000]), key=lambda r: sum(len(show_word(w, t)) for w, t in zip(r, ts))))
            # Simpler arguments, one at a time.
            for i, t in enumerate(ts):
                one = {'f32': 0x3f800000, 'f64': 0x3ff0000000000000}.get(t, 1)
                c = np.array([row[:i] + [np.uint64(w)] + row[i + 1:] for w in (0, one, int(row[i]))], dtype=np.uint64)
                row = list(c[int(np.nonzero(bad(c))[0][0])])
        else:
            row = [np.uint64(int(w, 16)) for w in case['args']]
        p, same, x, y = results(np.array([row], dtype=np.uint64))
        if p[0] or not same[0]:
            args = ', '.join(show_word(w, t) for w, t in zip(row, ts))
            how = 'panics in a build with overflow checks' if p[0] else 'is %s without optimisation, %s with it' % tuple(
                ', '.join(show_word(r[0, 1 + i], t) for i, t in enumerate(rets)) for r in (x, y))
            ctx.report(label, {'args': ['%x' % int(w) for w in row]}, Violation('%s%d(%s) of the %s library %s' % (fn, bits, args, nt, how)))
    ctx.numeric(label, run)
