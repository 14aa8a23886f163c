"""The back ends on random programs: to_c and to_simd."""
import os, re, shutil, subprocess
import numpy as np
from hypothesis import strategies as st

import build
import numlib as N
from common import CheckError, Stuck, Violation

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


TY = {32: {'fty': (np.float32, 'f32'), 'ity': (np.int32, 'i32'), 'uty': (np.uint32, 'u32')},
      64: {'fty': (np.float64, 'f64'), 'ity': (np.int64, 'i64'), 'uty': (np.uint64, 'u64')}}
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '&': 7, '^': 6, '|': 5, 'cmp': 4, '&&': 3, '||': 2}
# methods of the same name in C
UNARY_LIBM = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'trunc', 'sqrt', 'cbrt']


# ------------------------------------------------------------------ rendering as Rust
def rust(e):
    """(text, precedence)"""
    k = e[0]
    if k in ('v', 'k'):
        return e[1], 20
    if k == 'lit':
        return e[1], 20
    if k == 'p':
        return '(%s)' % rust(e[1])[0], 20
    if k == 'un':
        return e[1] + par(e[2], 15), 15
    if k == 'bin':
        p = PREC[e[1]]
        return '%s %s %s' % (par(e[2], p), e[1], par(e[3], p + 1)), p
    if k == 'cmp':
        return '%s %s %s' % (par(e[2], 5), e[1], par(e[3], 5)), 4
    if k == 'm':
        return '%s.%s(%s)' % (par(e[2], 18), e[1], ', '.join(rust(a)[0] for a in e[3])), 19
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(rust(a)[0] for a in e[2])), 19
    if k == 'frombits':
        return '%s::from_bits(%s)' % (e[1], rust(e[2])[0]), 19
    if k == 'cast':
        # (`x as T < y` does not parse)
        return '(%s as %s)' % (par(e[2], 15), e[1]), 20
    if k == 'if':
        other = rust(e[3])[0]
        return 'if %s { %s } else %s' % (rust(e[1])[0], rust(e[2])[0], other if e[3][0] == 'if' and e[4] else '{ %s }' % other), 0
    if k == 'blk':
        return '{ %s %s }' % (' '.join(map(stmt, e[1])), rust(e[2])[0]), 0
    raise ValueError(k)


def par(e, p):
    t, q = rust(e)
    return t if q >= p else '(%s)' % t


def stmt(s):
    if s[0] == 'let':
        return 'let %s%s: %s = %s;' % ('mut ' if s[4] else '', s[1], s[2], rust(s[3])[0])
    if s[0] == 'auto':
        return 'let %s%s = %s;' % ('mut ' if s[4] else '', s[1], rust(s[3])[0])
    if s[0] == 'wild':
        return 'let _%s = %s;' % (': ' + s[1] if s[3] else '', rust(s[2])[0])
    if s[0] == 'op':
        return '%s %s= %s;' % (s[1], s[2], rust(s[3])[0])
    return '%s = %s;' % (s[1], rust(s[2])[0])


def source(case, order=None):
    bits = case['bits']
    out = ['type %s = %s;' % (t, TY[bits][t][1]) for t in ('fty', 'ity', 'uty')]
    out += ['const %s: %s = %s;' % (n, t, rust(e)[0]) for n, t, e in case['consts']]
    fns = []
    for f in case['fns']:
        fns.append('%sfn %s(%s) -> %s { %s %s }' % ('pub ' if f['pub'] else '', f['name'], ', '.join('%s: %s' % tuple(p) for p in f['params']), f['ret'],
                                                     ' '.join(map(stmt, f['body'])), rust(f['result'])[0]))
    k = case['order'] % max(1, len(fns))
    return '\n'.join(out + (fns[k:] + fns[:k])[::-1 if case['order'] % 2 else 1])


# ------------------------------------------------------------------ what it means
LIBM = None


def libm(name):
    global LIBM
    if LIBM is None:
        import ctypes
        LIBM = ctypes.CDLL('libm.so.6')
    import ctypes
    f = getattr(LIBM, name)
    f.restype = ctypes.c_float if name.endswith('f') and name != 'erf' else ctypes.c_double
    return f, f.restype


def call_libm(name, *arrays):
    f, t = libm(name)
    return np.array([f(*(t(float(x)) for x in r)) for r in zip(*arrays)])


class Meaning:
    """Evaluates a program on arrays. mask: where the value is defined and does not depend on intermediate precision."""

    def __init__(self, case, n, fused, exact, saturate=False):
        self.case, self.n, self.fused, self.exact, self.saturate = case, n, fused, exact, saturate
        self.ty = TY[case['bits']]
        self.fns = {f['name']: f for f in case['fns']}
        self.mask = np.ones(n, bool)
        self.consts = {}
        self.F = self.ty['fty'][0]
        for c, t, e in case['consts']:
            self.consts[c] = self.ev(e, {}, t, False)

    def full(self, v, t):
        return np.full(self.n, v, dtype=self.ty[t][0])

    def real(self, wide):
        """A float result computed in double: rounded to the type."""
        r = wide.astype(self.F)
        if self.exact:
            self.mask &= (r.astype(np.float64) == wide) | np.isnan(wide)
        return r

    def ev(self, e, env, t, exact=True):
        with np.errstate(all='ignore'):
            return self._ev(e, env, t, exact)

    def _ev(self, e, env, t, exact=True):
        k = e[0]
        go = lambda x, t: self._ev(x, env, t)
        if k == 'v':
            return env[e[1]]
        if k == 'k':
            return self.consts[e[1]]
        if k == 'lit':
            if t == 'fty':
                v = self.F(e[2]) if not isinstance(e[2], str) else self.F(float(e[2]))
                if self.exact and exact and not (float(v) == float(e[2])):
                    self.mask &= False
                return self.full(v, t)
            return np.full(self.n, e[2], dtype=np.int64).astype(self.ty[t][0]) if e[2] < 2 ** 63 else np.full(self.n, e[2], dtype=np.uint64).astype(self.ty[t][0])
        if k == 'p':
            return go(e[1], t)
        if k == 'un':
            if e[1] == '!':
                return ~go(e[2], t)
            x = go(e[2], t)
            return -x
        if k == 'bin':
            op = e[1]
            if op in ('&&', '||'):
                a, b = go(e[2], t), go(e[3], t)
                return a & b if op == '&&' else a | b
            a, b = go(e[2], t), go(e[3], 'shift' if False else t)
            if op in ('<<', '>>'):
                b = (b.astype(np.int64) % self.case['bits']).astype(a.dtype)
                return np.left_shift(a, b) if op == '<<' else np.right_shift(a, b)
            if op in '/%' and t != 'fty':
                # (rounded towards zero, unlike numpy's)
                q = np.abs(a.astype(object)) // np.abs(b.astype(object)) * np.where((a < 0) != (b < 0), -1, 1)
                return (q if op == '/' else a.astype(object) - q * b.astype(object)).astype(a.dtype)
            f = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide, '&': np.bitwise_and, '|': np.bitwise_or, '^': np.bitwise_xor}[op]
            if t == 'fty':
                if self.exact:
                    return self.real(f(a.astype(np.float64), b.astype(np.float64)))
                return f(a, b)
            return f(a, b)
        if k == 'cmp':
            a, b = go(e[2], e[4]), go(e[3], e[4])
            return {'<': np.less, '>': np.greater, '<=': np.less_equal, '>=': np.greater_equal, '==': np.equal, '!=': np.not_equal}[e[1]](a, b)
        if k == 'm':
            x = go(e[2], 'fty')
            a = [go(y, 'fty') for y in e[3]]
            m = e[1]
            if m == 'to_bits':
                self.mask &= ~np.isnan(x)
                return x.view(self.ty['uty'][0])
            if m == 'abs':
                return np.abs(x)
            if m == 'mul_add':
                if self.exact:
                    p = self.real(x.astype(np.float64) * a[0])
                    return self.real(p.astype(np.float64) + a[1])
                if self.fused:
                    return call_libm('fma' if self.F is np.float64 else 'fmaf', x, *a).astype(self.F)
                return x * a[0] + a[1]
            if m == 'round':
                return call_libm('round', x).astype(self.F)
            if m == 'recip':
                return self.real(1.0 / x.astype(np.float64)) if self.exact else self.F(1) / x
            if m in ('sqrt', 'floor', 'ceil', 'trunc'):
                r = getattr(np, m)(x.astype(np.float64)) if self.exact else getattr(np, m)(x)
                return self.real(r) if self.exact else r
            if m == 'copysign':
                # (the sign of a NaN depends on when it is computed)
                self.mask &= ~np.isnan(a[0])
                return np.copysign(x, a[0])
            name = {'ln': 'log'}.get(m, m)
            return self.real(call_libm(name, x.astype(np.float64), *[y.astype(np.float64) for y in a]))
        if k == 'call':
            f = self.fns[e[1]]
            return self.function(f, [go(a, p[1]) for a, p in zip(e[2], f['params'])])
        if k == 'frombits':
            return go(e[2], 'uty').view(self.F)
        if k == 'cast':
            x = go(e[2], e[3])
            src, dst = e[3], t
            if src == 'fty' and dst != 'fty':
                w = x.astype(np.float64)
                hi = 2.0 ** (self.case['bits'] - (dst == 'ity'))
                ok = (w > -1 if dst == 'uty' else w > -hi) & (w < hi)
                r = np.where(ok, w, 0).astype(self.ty[dst][0])
                if not self.saturate:
                    self.mask &= ok
                    return r
                lim = np.iinfo(self.ty[dst][0])
                return np.where(w >= hi, lim.max, np.where(w <= (-1 if dst == 'uty' else -hi), lim.min, r)).astype(self.ty[dst][0])
            return x.astype(self.ty[dst][0])
        if k == 'if':
            c = go(e[1], 'bool')
            m = self.mask
            self.mask = m.copy()
            a = go(e[2], t)
            ma, self.mask = self.mask, m.copy()
            b = go(e[3], t)
            self.mask = np.where(c, ma, self.mask)
            return np.where(c, a, b)
        if k == 'blk':
            env = dict(env)
            self.run(e[1], env)
            return self._ev(e[2], env, t)
        raise ValueError(k)

    def run(self, stmts, env):
        for s in stmts:
            if s[0] == 'wild':
                continue
            if s[0] in ('let', 'auto'):
                env[s[1]] = self._ev(s[3], env, s[2])
                env['type ' + s[1]] = s[2]
            elif s[0] == 'op':
                env[s[1]] = self._ev(['bin', s[2], ['v', s[1]], s[3]], env, env['type ' + s[1]])
            else:
                env[s[1]] = self._ev(s[2], env, env['type ' + s[1]])

    def function(self, f, args):
        env = {p[0]: a for p, a in zip(f['params'], args)}
        with np.errstate(all='ignore'):
            self.run(f['body'], env)
            return self._ev(f['result'], env, f['ret'])


# ------------------------------------------------------------------ random programs
class Maker:
    def __init__(self, draw, bits, simd):
        self.draw, self.bits, self.simd = draw, bits, simd
        self.count = 0

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def flag(self, p=0.5):
        return self.draw(st.integers(0, 99)) >= 100 - int(p * 100)

    def name(self):
        self.count += 1
        return 't%d' % self.count

    def flit(self, const=False):
        kind = self.pick(['dec', 'int', 'suffix', 'exp', 'plain'] + ([] if self.simd or const else ['bits']))
        n, d = self.draw(st.integers(0, 64)), self.pick([1, 2, 4, 8])
        v = n / d
        f = TY[self.bits]['fty'][1]
        if kind == 'dec' and (const or self.bits == 64):
            v = self.pick([0.1, 3.14159265358979, 1e-7, 12345.678, 0.3333333333333333])
            return ['lit', repr(v), v]
        if kind == 'suffix':
            return ['lit', '%d%s' % (n, f), float(n)]
        if kind == 'exp':
            e = self.draw(st.integers(-2, 3))
            v = float('%de%d' % (n, e)) if e >= 0 else float(n)
            return ['lit', '%d%s%s' % (n, 'e%d' % e if e >= 0 else '.0', self.pick(['', f])), v]
        if kind == 'bits':
            b = int(np.array(v, dtype=TY[self.bits]['fty'][0]).view(TY[self.bits]['uty'][0]))
            return ['frombits', f, ['lit', self.pick(['%d', '0x%x']) % b, b]]
        return ['lit', repr(v), v]

    def ilit(self, t, strong=False):
        s = TY[self.bits][t][1]
        if strong or (self.simd and t == 'uty') or self.flag(0.4):
            n = self.pick([self.draw(st.integers(0, 100)), self.draw(st.integers(0, 2 ** (self.bits - 1) - 1)), 1])
            if t == 'uty' and self.flag(0.3):
                n = self.draw(st.integers(0, 2 ** self.bits - 1))
            return ['lit', self.pick(['%d%s', '0x%x_%s', '%d_%s']) % (n, s), n]
        n = self.draw(st.integers(0, 1000))
        return ['lit', self.pick(['%d', '0x%x']) % n, n]

    def leaf(self, t, env, strong=False):
        vs = [n for n, ty in env.items() if ty == t]
        opts = [('v', n) for n in vs] * 3 + [('k', c[0]) for c in self.consts if c[1] == t]
        if (not strong and self.flag(0.25)) or not opts:
            if t == 'fty':
                e = self.flit()
                if strong and re.search('f(32|64)$', e[1]):
                    return e
                return ['cast', 'fty', e, 'fty'] if strong else e
            return self.ilit(t, strong)
        return list(self.pick(opts))

    def expr(self, t, env, d, strong=False):
        """strong: the type does not depend on the surroundings."""
        if d <= 0 or self.flag(0.12):
            return self.leaf(t, env, strong)
        e = self.node(t, env, d, strong)
        return ['p', e] if self.flag(0.08) else e

    def node(self, t, env, d, strong):
        S = self.simd
        callable_ = [f for f in self.fns if f['ret'] == t]
        if t == 'fty':
            kinds = ['bin'] * 6 + ['neg', 'mul_add', 'method', 'if', 'cast', 'frombits'] + (['call'] * 3 if callable_ else []) + ([] if S else ['blk', 'libm'])
        else:
            kinds = ['bin'] * 5 + ['shift', 'if', 'cast'] + (['neg'] if t == 'ity' else ['to_bits']) + (['call'] if callable_ and not S else []) + ([] if S else ['divide'])
        k = self.pick(kinds)
        sub = lambda t, s=False: self.expr(t, env, d - 1, s)
        if k == 'bin':
            ops = ['+', '-', '*'] + (['/'] if t == 'fty' else ['&', '|', '^'])
            a, b = sub(t, True), sub(t)
            return ['bin', self.pick(ops), a, b]
        if k == 'shift':
            n = self.draw(st.integers(0, self.bits - 1))
            s = TY[self.bits][t][1] if S and t == 'uty' and self.flag() else self.pick(['', TY[self.bits][t][1]])
            a = self.leaf(t, env, True)
            if self.flag():
                a = ['cast', t, self.expr(t, env, d - 1), t]
            return ['bin', self.pick(['<<', '>>']), a, ['lit', '%d%s' % (n, s), n]]
        if k == 'divide':       # by what is not 0
            return ['bin', self.pick('/%'), sub(t, True), self.divisor(t) if t == 'ity' or self.flag() else ['p', ['bin', '|', sub(t, True), self.divisor(t)]]]
        if k == 'neg':
            return ['un', '-', sub(t, strong)]
        if k == 'mul_add':
            return ['m', 'mul_add', sub('fty', True), [sub('fty'), sub('fty')]]
        if k == 'method':
            m = self.pick(['abs', 'recip', 'sqrt', 'copysign'] + ([] if S else ['round', 'round']))
            return ['m', m, sub('fty', True), [sub('fty')] if m == 'copysign' else []]
        if k == 'libm':
            m = self.pick(UNARY_LIBM + ['ln', 'atan2', 'hypot'])
            return ['m', m, sub('fty', True), [sub('fty')] if m in ('atan2', 'hypot') else []]
        if k == 'to_bits':
            return ['m', 'to_bits', sub('fty', True), []]
        if k == 'if':
            return ['if', self.cond(env, d - 1), sub(t, strong), sub(t, strong), int(self.flag())]
        if k == 'cast':
            src = self.pick([x for x in ('fty', 'ity', 'uty') if x != t] + ([t] if not S else []))
            name = t if self.flag(0.7) else TY[self.bits][t][1]
            return ['cast', name, sub(src, True), src]
        if k == 'frombits':
            if self.flag(0.7):      # a float again
                return ['frombits', 'fty', ['bin', self.pick('&|^'), ['m', 'to_bits', sub('fty', True), []], self.ilit('uty') if self.flag() else sub('uty')]]
            return ['frombits', 'fty', sub('uty')]
        if k == 'call':
            f = self.pick(callable_)
            return ['call', f['name'], [sub(p[1], S and i == 0) for i, p in enumerate(f['params'])]]
        if k == 'blk':
            env = dict(env)
            return ['blk', self.stmts(env, d - 1, 2), self.expr(t, env, d - 1, strong)]
        raise ValueError(k)

    def divisor(self, t):
        n = self.pick([2, 3, 7, 10, self.draw(st.integers(1, 1000)), self.draw(st.integers(1, 2 ** (self.bits - 1) - 1))])
        return ['lit', '%d%s' % (n, self.pick(['', TY[self.bits][t][1]]) if n < 2 ** 31 else TY[self.bits][t][1]), n]

    def cond(self, env, d):
        if d > 0 and self.flag(0.35):
            k = self.pick(['&&', '||', '!', 'p'])
            if k == '!':
                return ['un', '!', ['p', self.cond(env, d - 1)]]
            if k == 'p':
                return ['p', self.cond(env, d - 1)]
            return ['bin', k, self.cond(env, d - 1), self.cond(env, d - 1)]
        t = self.pick(['fty', 'fty', 'ity', 'uty'])
        a = self.expr(t, env, d - 1, True)
        b = self.expr(t, env, d - 1)
        return ['cmp', self.pick(['<', '<=', '>', '>=', '==', '!=']), a, b, t]

    def stmts(self, env, d, n):
        out = []
        muts = []
        for _ in range(self.draw(st.integers(0, n))):
            if muts and self.flag(0.6):
                v, t = self.pick(muts)
                if self.flag(0.7):
                    if t != 'fty' and not self.simd and self.flag(0.5):
                        o = self.pick(['/', '%', '<<', '>>'])
                        n = self.draw(st.integers(0, self.bits - 1))
                        out.append(['op', v, o, self.divisor(t) if o in '/%' else ['lit', '%d' % n, n]])
                        continue
                    out.append(['op', v, self.pick(['+', '-', '*'] + (['/'] if t == 'fty' else ['&', '|', '^'])), self.expr(t, env, d)])
                    continue
                out.append(['set', v, self.expr(t, env, d)])
                continue
            t = self.pick(['fty', 'fty', 'ity', 'uty'])
            if self.flag(0.06):
                out.append(['wild', t, self.expr(t, env, d, True), int(self.flag())])
                continue
            auto = self.flag(0.2)
            e = self.expr(t, env, d, auto)
            v = self.name()
            mut = self.flag(0.5)
            out.append(['auto' if auto else 'let', v, t, e, mut])
            env[v] = t
            if mut:
                muts.append((v, t))
        return out

    def program(self):
        self.consts, self.fns = [], []
        for i in range(self.draw(st.integers(0, 3))):
            t = self.pick(['fty', 'fty', 'ity', 'uty'])
            e = self.flit(True) if t == 'fty' else self.ilit(t)
            if self.flag(0.3) and t != 'uty':
                e = ['un', '-', e]
            if self.simd and self.consts and self.flag(0.4):
                prev = [c for c in self.consts if c[1] == t]
                if prev:
                    e = ['bin', self.pick(['*', '+', '-'] if t == 'fty' else '&|^'), ['k', self.pick(prev)[0]], e]
            self.consts.append(['K%d' % i, t, e])
        for i in range(self.draw(st.integers(1, 4))):
            params = [['x%d' % j, 'fty' if j == 0 and self.simd else self.pick(['fty', 'fty', 'ity', 'uty'])] for j in range(self.draw(st.integers(1, 3)))]
            env = {n: t for n, t in params}
            ret = 'fty' if self.simd else self.pick(['fty', 'fty', 'fty', 'ity', 'uty'])
            d = self.pick([1, 2, 3, 3, 4, 4, 5])
            body = self.stmts(env, d - 1, self.pick([1, 3, 3, 6]))
            self.fns.append({'name': self.pick(['f', 'g', 'fn_', 'h']) + str(i), 'params': params, 'ret': ret, 'pub': self.flag(),
                             'body': body, 'result': self.expr(ret, env, d)})
        return {'bits': self.bits, 'consts': self.consts, 'fns': self.fns, 'order': self.draw(st.integers(0, 5)), 'seed': self.draw(st.integers(0, 999))}


@st.composite
def programs(draw, simd=False):
    return Maker(draw, draw(st.sampled_from([32, 64])), simd).program()


def points(case, f, n):
    rng = np.random.default_rng([case['seed'], len(f['params'])])
    cols = []
    for _, t in f['params']:
        if t == 'fty':
            x = np.round(rng.normal(size=n) * 8 * 4) / rng.choice([1, 2, 4], n)
            if case['bits'] == 64:
                x = np.where(rng.random(n) < 0.5, rng.normal(size=n) * np.exp2(rng.integers(-20, 20, n)), x)
            sp = np.array([0.0, -0.0, 1.0, -1.0, 0.5, np.inf, -np.inf, np.nan, 2.5, -1.5])
            i = rng.random(n) < 0.15
            x[i] = rng.choice(sp, i.sum())
        else:
            x = rng.integers(-40 if t == 'ity' else 0, 40, n).astype(float)
            i = rng.random(n) < 0.2
            x[i] = rng.integers(-2 ** 30 if t == 'ity' else 0, 2 ** 30, i.sum())
        cols.append(N.to_bits(x, case['bits']) if t == 'fty' else x)
    return cols


def typed(case, f, cols):
    ty = TY[case['bits']]
    return [c.astype(ty[p[1]][0]) if p[1] == 'fty' else c.astype(np.int64).astype(ty[p[1]][0]) for p, c in zip(f['params'], cols)]


def kinds(e, acc):
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            acc.add(e[0] + (' ' + e[1] if e[0] in ('bin', 'm', 'cmp') and isinstance(e[1], str) else ''))
        for x in e:
            kinds(x, acc)
    return acc


def shape(case):
    acc = set()
    for f in case['fns']:
        kinds(f['body'], acc)
        kinds([f['result']], acc)
    return acc


C_MAIN = '''
#include <stdio.h>
#include <string.h>
int main(int argc, char **argv) { const char *n = argv[1]; double r[4];
%s
return 3; }
'''


def c_main(case, prefix):
    out = []
    for f in case['fns']:
        k = len(f['params'])
        args = ', '.join('(%s)%sr[%d]' % (t, '' if t == 'fty' else '(long long)', i) for i, (_, t) in enumerate(f['params']))
        to = {'fty': 'double', 'ity': 'long long', 'uty': 'unsigned long long'}[f['ret']]
        out.append('if (!strcmp(n, "%s")) { while (fread(r, 8, %d, stdin) == %d) { %s o = %s%s(%s); fwrite(&o, 8, 1, stdout); } return 0; }' % (
            f['name'], k, k, to, prefix, f['name'], args))
    return C_MAIN % '\n'.join(out)


def same(a, b, ret):
    if ret == 'fty':
        a, b = a.astype(np.float64), b.astype(np.float64)
        return (a.view(np.int64) == b.view(np.int64)) | (np.isnan(a) & np.isnan(b))
    return a == b


def run_rows(exe, name, cols, *more):
    r = subprocess.run([exe, name, *more], input=N.rows(cols).tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        raise Violation('the program of %s ends with status %d' % (name, r.returncode))
    return r.stdout


def judge(ctx, case, test, f, cols, got, what, mask, want):
    ok = same(got, want, f['ret']) | ~mask
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        raise Violation('%s: %s(%s) is %r, the Rust function gives %r\n%s' % (
            what, f['name'], ', '.join(repr(float(c[i])) for c in cols), got[i].item(), want[i].item(), source(case)))


RUST_MAIN = '''
extern crate simd_shim;
pub use simd_shim::{simd, StdFloat};
use std::io::{Read, Write};
pub trait StdLibm: Sized { type IntType; type UintType; %s }
mod g { %s }
mod s { %s
pub fn dispatch(n: &str, r: &[f64]) -> f64 { match n { %s _ => panic!("no such function") } } }
const L: usize = %d;
fn lanes(n: &str, v: &[f64], o: &mut Vec<f64>) { match n { %s _ => panic!("no such function") } }
fn main() {
    let n = std::env::args().nth(1).unwrap();
    let k: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    let mut b = Vec::new(); std::io::stdin().read_to_end(&mut b).unwrap();
    let v: Vec<f64> = b.chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut o: Vec<f64> = v.chunks(k).map(|r| s::dispatch(&n, r)).collect();
    lanes(&n, &v, &mut o);
    let out: Vec<u8> = o.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::io::stdout().write_all(&out).unwrap();
}
'''


def rust_main(case, simd, lanes):
    bits = case['bits']
    rs = lambda t: TY[bits][t][1]
    self_ = {'fty': 'Self', 'ity': 'Self::IntType', 'uty': 'Self::UintType'}
    sigs, one, many = [], [], []
    for f in case['fns']:
        k = len(f['params'])
        sigs.append('fn %s(self%s) -> Self;' % (f['name'], ''.join(', %s: %s' % (n, self_[t]) for n, t in f['params'][1:])))
        one.append('"%s" => %s(%s) as f64,' % (f['name'], f['name'], ', '.join('r[%d] as %s' % (i, rs(t)) for i, (_, t) in enumerate(f['params']))))
        many.append('"%s" => { let n = v.len() / %d; let mut i = 0; while i < n { let r = StdLibm::%s(%s); for j in 0..L.min(n - i) { o.push(r.0[j] as f64) } i += L; } }' % (
            f['name'], k, f['name'], ', '.join('simd::Simd::<%s, L>(std::array::from_fn(|j| v[(i + j).min(n - 1) * %d + %d] as %s))' % (rs(t), k, i, rs(t))
                                               for i, (_, t) in enumerate(f['params']))))
    return '#![allow(warnings, arithmetic_overflow, overflowing_literals)]\n' + RUST_MAIN % (' '.join(sigs), simd, source(case), ' '.join(one), lanes, ' '.join(many))


@check('C18')
def c18(ctx):
    ctx.rule('Random programs of typed functions (arithmetic, bits, casts, comparisons, if, blocks, assignments, calls in any order, constants, '
             'every literal form) in the style of the generated libraries, of 32 and 64 bits: the C that to_c makes of them, compiled, gives the same '
             'values as the Rust meaning at random points, specials included. For 32 bits only points where no intermediate value is rounded count. '
             'Non-trivial: a function with at least one counted point and more than one operation.')
    ctx.assumptions.append('mul_add may be fused in C or not; gcc -ffp-contract=off -fwrapv; conversions of floats beyond the integer type are not compared')
    drv = build.get_driver()

    def one(case):
        bits = case['bits']
        src = source(case)
        prefix = ['', 'ds%d_' % bits, 'p_'][case['seed'] % 3]
        tag, r = drv.call('to_c', src, prefix, 'f' if bits == 32 else '')
        if tag != 'OK':
            raise Violation('to_c panics: %s\n%s' % (r[0], src))
        code = r[0]
        d = build.scratch_dir('c18')
        try:
            cfile = build.write(os.path.join(d, 'm.c'), code + c_main(case, prefix))
            exe = os.path.join(d, 'm')
            g = build.gcc(cfile, exe, ['-fwrapv', '-fno-builtin', '-Werror=implicit-function-declaration'])
            if g.returncode:
                raise Violation('the C of this program does not compile: %s\n%s\n%s' % (g.stderr.decode('utf-8', 'replace')[:800], src, code))
            counted = 0
            for f in case['fns']:
                cols = points(case, f, 40)
                m = Meaning(case, 40, False, bits == 32)
                want = m.function(f, typed(case, f, cols))
                out = run_rows(exe, f['name'], cols)
                got = np.frombuffer(out, dtype={'fty': np.float64, 'ity': np.int64, 'uty': np.uint64}[f['ret']])
                if len(got) != 40:
                    raise CheckError('short output')
                counted += int(m.mask.sum())
                if bits == 64 and not (same(got, want, f['ret']) | ~m.mask).all():
                    # A fused mul_add is as good, if it is used throughout.
                    m2 = Meaning(case, 40, True, False)
                    want2 = m2.function(f, typed(case, f, cols))
                    if (same(got, want2, f['ret']) | ~m2.mask).all():
                        continue
                judge(ctx, case, 'program', f, cols, got, 'to_c', m.mask, want)
        finally:
            shutil.rmtree(d, True)
        ks = shape(case)
        ctx.case('program', {'source': src}, counted > 0 and len(ks) > 2, str(bits))
        for k in ks:
            ctx.labels['has ' + k] = ctx.labels.get('has ' + k, 0) + 1
        ctx.labels['points counted'] = ctx.labels.get('points counted', 0) + counted
    ctx.prop('program', programs(), one, ctx.n(600, 15000))
    drv.close()


@check('C20')
def c20(ctx):
    ctx.rule('Random programs in the style of the generated libraries (float functions of float and integer arguments; arithmetic, bits, casts, '
             'comparisons, if, assignments, calls in any order, constants), of 32 and 64 bits: the methods that to_simd makes of them, compiled over '
             'vectors of 1, 3 and 4 lanes, give in every lane the bits that the scalar functions give for the element. '
             'Non-trivial: more than two kinds of operation.')
    ctx.assumptions.append('lib/simd_shim.rs, a stand-in that works element by element, is compiled in place of the portable-simd crate')
    drv = build.get_driver()
    d0 = build.scratch_dir('c20shim')
    shim = os.path.join(d0, 'libsimd_shim.rlib')
    r = build.run(['rustc', '--edition=2021', '--crate-type', 'rlib', '--crate-name', 'simd_shim', '-C', 'overflow-checks=off', '-A', 'warnings', '-o', shim,
                   os.path.join(N.LIB, 'simd_shim.rs')])
    if r.returncode:
        raise CheckError('the shim does not compile: ' + r.stderr.decode()[:2000])

    def one(case):
        bits = case['bits']
        src = source(case)
        tag, r = drv.call('to_simd', src, bits)
        if tag != 'OK':
            raise Violation('to_simd panics: %s\n%s' % (r[0], src))
        lanes = [1, 3, 4][case['seed'] % 3]
        d = build.scratch_dir('c20')
        try:
            main = build.write(os.path.join(d, 'm.rs'), rust_main(case, r[0], lanes))
            exe = os.path.join(d, 'm')
            g = build.run(['rustc', '--edition=2021', '-C', 'overflow-checks=off', '-C', 'debuginfo=0', '--extern', 'simd_shim=' + shim, '-o', exe, main])
            if g.returncode:
                err = g.stderr.decode('utf-8', 'replace')
                raise Violation('the methods of this program do not compile: %s\n%s\n%s' % (err[:1500], src, r[0]))
            for f in case['fns']:
                cols = points(case, f, 40)
                out = np.frombuffer(run_rows(exe, f['name'], cols, str(len(cols))), dtype=np.float64)
                if len(out) != 80:
                    raise CheckError('short output')
                if bits == 32:
                    out = out.astype(np.float32)
                # only the bits and the sign of NaN are left open
                m = Meaning(case, 40, True, False, saturate=True)
                want = m.function(f, typed(case, f, cols))
                if not (same(out[:40], want, 'fty') | ~m.mask).all():
                    raise CheckError('the model of the scalar program is wrong: %s %s\n%s' % (f['name'], [c.tolist() for c in cols], src))
                judge(ctx, case, 'program', f, cols, out[40:], 'to_simd (%d lanes)' % lanes, m.mask, out[:40])
        finally:
            shutil.rmtree(d, True)
        ks = shape(case)
        ctx.case('program', {'source': src}, len(ks) > 2, str(bits))
        for k in ks:
            ctx.labels['has ' + k] = ctx.labels.get('has ' + k, 0) + 1
    ctx.prop('program', programs(True), one, ctx.n(300, 8000))
    drv.close()


# ------------------------------------------------------------------ names
LIBM_FUNCTIONS = set('sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p pow sqrt cbrt hypot fabs '
                     'round floor ceil trunc copysign fma fmin fmax fmod'.split())
LIBM_FUNCTIONS |= {n + 'f' for n in LIBM_FUNCTIONS}


def symbols(cfile, d, what):
    """(defined functions, other defined symbols, undefined symbols) of the compiled file."""
    o = os.path.join(d, os.path.basename(cfile) + '.o')
    r = build.run(['gcc', '-std=gnu11', '-O0', '-fno-builtin', '-Werror=implicit-function-declaration', '-Werror=missing-prototypes', '-c', cfile, '-o', o])
    if r.returncode:
        raise Violation('%s does not compile, with prototypes ahead of use: %s' % (what, r.stderr.decode('utf-8', 'replace')[:1500]))
    fns, data, undef = set(), set(), set()
    for l in build.run(['nm', '-g', o]).stdout.decode().splitlines():
        *_, k, n = l.split()
        (undef if k == 'U' else fns if k == 'T' else data).add(n)
    return o, fns, data, undef


def rename(text, old, new):
    return re.sub(r'\b%s(?=\w)' % re.escape(old), new, text)


@check('C19')
def c19(ctx):
    from gen_checks import FUNCS, CONSTS, TYPES, NOT_IN, GROUPS, selections, members
    ctx.rule('Random programs through to_c with random prefixes, and random selections of libmgen with and without --function-prefix: the external '
             'symbols of the compiled C are the prefix followed by the name of each function and nothing else, with a prototype ahead of every use; what '
             'is left undefined is in libm; a different prefix changes nothing but the names; the libraries of both widths link into one program. '
             'Non-trivial: at least two functions.')
    drv = build.get_driver()
    prefix_st = st.one_of(st.sampled_from(['ds32_', 'ds64_', 'x', 'my_lib_', '_', 'FN', 'a1b2_', 'fty_', 'ds_sin_']), st.from_regex(r'[a-z][a-z0-9]{0,6}_', fullmatch=True),
                          # which names of functions begin with
                          st.sampled_from(['f', 'fn_', 'fn', 'g', 'h', 'f0', 'fn_1']), st.sampled_from(FUNCS + [f[:3] for f in FUNCS]))
    prefix_st = prefix_st.filter(lambda p: p + 'log' not in LIBM_FUNCTIONS and not any(p + f in LIBM_FUNCTIONS for f in FUNCS))

    def program(case):
        prog, p, q = case
        src = source(prog)
        d = build.scratch_dir('c19')
        try:
            texts = []
            for pre in (p, q):
                tag, r = drv.call('to_c', src, pre, 'f' if prog['bits'] == 32 else '')
                if tag != 'OK':
                    raise Violation('to_c panics: %s\n%s' % (r[0], src))
                texts.append(r[0])
            _, fns, data, undef = symbols(build.write(os.path.join(d, 'm.c'), texts[0]), d, 'the C of this program\n%s\n%s\n' % (src, texts[0]))
            want = {p + f['name'] for f in prog['fns']}
            if fns != want:
                raise Violation('with the prefix %r the C functions are %s, expected %s\n%s' % (p, sorted(fns), sorted(want), src))
            if data:
                raise Violation('the C of this program defines %s for other files to see\n%s' % (sorted(data), src))
            if undef - LIBM_FUNCTIONS:
                raise Violation('the C of this program needs %s\n%s\n%s' % (sorted(undef - LIBM_FUNCTIONS), src, texts[0]))
            names = [f['name'] for f in prog['fns']]
            plain = [re.sub(r'\b%s(?=(?:%s)\b)' % (re.escape(pre), '|'.join(names)), '@', t) for pre, t in zip((p, q), texts)]
            if plain[0] != plain[1]:
                raise Violation('the prefixes %r and %r change more than the names of functions\n%s\n%s\n%s' % (p, q, src, *texts))
        finally:
            shutil.rmtree(d, True)
        ctx.case('program', [src, p], len(prog['fns']) > 1, str(prog['bits']))
    ctx.prop('program', st.tuples(programs(), prefix_st, prefix_st), program, ctx.n(250, 4000))

    def library(case):
        names, bits, number, p = case
        d = build.scratch_dir('c19l')
        try:
            default = 'ds%d_' % bits
            args = build.gen_args(names, bits, number_type=number, language='c')
            texts = []
            for a in (args + ['--function-prefix', p], args):
                g = build.libmgen(a)
                if g.code:
                    raise Violation('libmgen %s ends with status %d: %s' % (' '.join(a), g.code, g.err[-1000:]))
                texts.append(g.out)
            line = 'libmgen %s --function-prefix %s' % (' '.join(args), p)
            _, fns, data, undef = symbols(build.write(os.path.join(d, 'm.c'), texts[0]), d, line)
            _, fns_d, data_d, undef_d = symbols(build.write(os.path.join(d, 'n.c'), texts[1]), d, 'libmgen ' + ' '.join(args))
            bare = lambda s, pre: {n[len(pre):] if n.startswith(pre) else '(no prefix) ' + n for n in s}
            b, bd = bare(fns, p), bare(fns_d, default)
            known = set(FUNCS)
            if not b | bd <= known:                     # helpers that this check has no list of: those that the same selection has in Rust
                g = build.libmgen(build.gen_args(names, bits, number_type=number, language='rust'))
                known |= set(N.rust_signatures(g.out))
            if not b <= known:
                raise Violation('%s defines the functions %s' % (line, sorted(fns - {p + f for f in known})))
            if not bd <= known:
                raise Violation('libmgen %s defines the functions %s' % (' '.join(args), sorted(fns_d - {default + f for f in known})))
            if b != bd:
                raise Violation('%s defines %s, without the prefix %s' % (line, sorted(b - bd), sorted(bd - b)))
            missing = (members(names) & set(FUNCS)) - b
            if missing:
                raise Violation('%s does not define %s' % (line, sorted(missing)))
            if data | data_d:
                raise Violation('%s defines %s for other files to see' % (line, sorted(data | data_d)))
            if (undef | undef_d) - LIBM_FUNCTIONS:
                raise Violation('%s needs %s' % (line, sorted((undef | undef_d) - LIBM_FUNCTIONS)))
            plain = [re.sub(r'\b%s(?=(?:%s)\b)' % (re.escape(pre), '|'.join(sorted(known))), '@', t) for pre, t in zip((p, default), texts)]
            if plain[0] != plain[1]:
                raise Violation('%s changes more than the names of functions' % line)
        finally:
            shutil.rmtree(d, True)
        ctx.case('library', case, len(b) > 1, '%d %s' % (bits, number))
    ctx.prop('library', st.tuples(selections('c', 0.1), st.sampled_from([32, 64]), st.sampled_from(['decimal', 'hex']), prefix_st), library, ctx.n(40, 600), each=4)

    def linked(case):
        names, other, number = case
        d = build.scratch_dir('c19b')
        try:
            objs, fns = [], []
            for bits, sel in ((32, names), (64, other)):
                args = build.gen_args(sel, bits, number_type=number, language='c')
                g = build.libmgen(args)
                o, f, _, _ = symbols(build.write(os.path.join(d, 'm%d.c' % bits), g.out), d, 'libmgen ' + ' '.join(args))
                objs.append(o)
                fns.append(f)
            main = build.write(os.path.join(d, 'main.c'), '%s void *volatile all[] = {%s 0}; int main() { return all[0] == all; }' % (
                ' '.join('void %s();' % n for f in fns for n in sorted(f)), ' '.join('%s,' % n for f in fns for n in sorted(f))))
            exe = os.path.join(d, 'main')
            r = build.run(['gcc', '-w', '-fno-builtin', main, *objs, '-lm', '-o', exe])
            if r.returncode:
                raise Violation('the 32 bit library of %s and the 64 bit library of %s do not link into one program: %s' % (
                    ','.join(names), ','.join(other), r.stderr.decode('utf-8', 'replace')[:1500]))
        finally:
            shutil.rmtree(d, True)
        ctx.case('linked', case, len(fns[0]) > 1 and len(fns[1]) > 1, number)
    ctx.prop('linked', st.tuples(selections('c', 0.1), selections('c', 0.1), st.sampled_from(['decimal', 'hex'])), linked, ctx.n(20, 300), each=2)
    drv.close()
