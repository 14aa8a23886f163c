"""C42, C43: what the back ends do with Rust that is not in the style of the generated libraries."""
import os, re, shutil, subprocess
import numpy as np
from hypothesis import strategies as st

import build
import numlib as N
from common import CheckError, Stuck, Violation

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


BOTH = 'type fty = f64;\ntype ity = i64;\ntype uty = u64;\n'
FLOAT_METHODS = [('powf', 1), ('powi', 'i'), ('min', 1), ('max', 1), ('exp2', 0), ('exp_m1', 0), ('ln_1p', 0), ('log2', 0), ('log10', 0), ('log', 1),
                 ('signum', 0), ('fract', 0), ('rem_euclid', 1), ('div_euclid', 1), ('to_degrees', 0), ('to_radians', 0), ('hypot', 1), ('atan2', 1),
                 ('asinh', 0), ('acosh', 0), ('atanh', 0), ('exp', 0), ('ln', 0), ('sinh', 0), ('floor', 0), ('ceil', 0), ('trunc', 0), ('round', 0),
                 ('copysign', 1), ('recip', 0), ('abs', 0), ('sqrt', 0), ('cbrt', 0), ('clamp', 'c'), ('clone', 0), ('sin', 0), ('tan', 0), ('powf', 1)]
INT_METHODS = [('abs', 0), ('pow', 'n'), ('signum', 0), ('wrapping_add', 1), ('wrapping_sub', 1), ('wrapping_mul', 1), ('wrapping_neg', 0), ('min', 1),
               ('max', 1), ('rem_euclid', 'k'), ('div_euclid', 'k'), ('rotate_left', 's'), ('rotate_right', 's'), ('count_ones', 'r'),
               ('leading_zeros', 'r'), ('swap_bytes', 0), ('wrapping_shl', 's'), ('wrapping_shr', 's'), ('abs_diff', 'd'), ('is_positive', 'b'),
               ('wrapping_pow', 'n'), ('abs', 0), ('pow', 'n'), ('saturating_add', 1), ('clone', 0), ('not', 'x')]
UINT_METHODS = [m for m in INT_METHODS if m[0] not in ('abs', 'signum', 'is_positive', 'not', 'abs_diff')] + [('trailing_zeros', 'r'), ('is_power_of_two', 'b')]
FLOAT_PATHS = ['f64::EPSILON', 'f64::MAX', 'f64::MIN', 'f64::MIN_POSITIVE', 'f64::NAN', 'f64::INFINITY', 'f64::NEG_INFINITY', 'fty::NAN', 'fty::INFINITY',
               'fty::MIN_POSITIVE', 'std::f64::consts::PI', 'core::f64::consts::LN_2', 'fty::EPSILON', '(f32::MIN_POSITIVE as fty)', '(f32::EPSILON as fty)',
               '(f64::DIGITS as fty)', '(f64::RADIX as fty)']
INT_PATHS = ['i64::MAX', 'i64::MIN', 'ity::MAX', '(i32::MAX as ity)', '(u32::MAX as ity)', '(i64::BITS as ity)', '(usize::MAX as ity)', '(u8::MAX as ity)']
SMALL = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767}


class G:
    """Texts of Rust expressions of 64 bits. @t{..@} marks conversions of a float to the integer type t."""

    def __init__(self, draw):
        self.draw = draw
        self.vars = {'x': 'fty', 'y': 'fty', 'n': 'ity', 'm': 'uty'}
        self.muts = {}
        self.items = []
        self.tags = []
        self.count = 0

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def flag(self, p=0.5):
        return self.draw(st.integers(0, 99)) >= 100 - int(p * 100)

    def name(self):
        self.count += 1
        return 'v%d' % self.count

    # --- what is in the style of the libraries
    def F(self, d=2):
        k = self.pick(['var', 'var', 'lit'] if d <= 0 else ['var', 'lit', 'bin', 'bin', 'bin', 'abs', 'if', 'cast', 'neg', 'blk', 'call'])
        if k == 'var':
            return self.pick([v for v, t in self.vars.items() if t == 'fty'])
        if k == 'lit':
            return self.pick(['0.5', '2.0', '1.25', '3.0', '0.1', '7f64', '0.3_f64'])
        if k == 'bin':
            return '(%s %s %s)' % (self.F(d - 1), self.pick('+-*/'), self.F(d - 1))
        if k == 'abs':
            return '(%s as fty).%s()' % (self.F(d - 1), self.pick(['abs', 'floor', 'round']))
        if k == 'if':
            return '(if %s { %s } else { %s })' % (self.B(d - 1), self.F(d - 1), self.F(d - 1))
        if k == 'cast':
            return '(%s as fty)' % self.pick([v for v, t in self.vars.items() if t in ('ity', 'uty')])
        if k == 'neg':
            return '(-%s)' % self.F(d - 1)
        if k == 'blk':
            v = self.name()
            return '{ let %s: fty = %s; %s * %s }' % (v, self.F(d - 1), v, self.F(0))
        return 'helper(%s)' % self.F(d - 1)

    def I(self, d=2):
        k = self.pick(['var', 'lit'] if d <= 0 else ['var', 'var', 'lit', 'bin', 'bin', 'cast', 'if'])
        if k == 'var':
            return self.pick([v for v, t in self.vars.items() if t == 'ity'])
        if k == 'lit':
            return self.pick(['1i64', '3_i64', '40i64', '5000000000i64', '7i64'])
        if k == 'bin':
            return '(%s %s %s)' % (self.I(d - 1), self.pick('+-*&|^'), self.I(d - 1))
        if k == 'cast':
            return '@ity{%s@}' % self.F(d - 1)
        return '(if %s { %s } else { %s })' % (self.B(d - 1), self.I(d - 1), self.I(d - 1))

    def U(self, d=2):
        k = self.pick(['var', 'lit', 'cast'] if d <= 0 else ['var', 'lit', 'bin', 'cast'])
        if k == 'var':
            return self.pick([v for v, t in self.vars.items() if t == 'uty'])
        if k == 'lit':
            return self.pick(['1u64', '0xff_u64', '9u64'])
        if k == 'bin':
            return '(%s %s %s)' % (self.U(d - 1), self.pick('+-*&|^'), self.U(d - 1))
        return '(%s as uty)' % self.I(0)

    def B(self, d=1):
        k = self.pick(['cmp', 'cmp', 'icmp'] if d <= 0 else ['cmp', 'cmp', 'icmp', 'and', 'not'])
        o = self.pick(['<', '>', '<=', '>=', '==', '!='])
        if k == 'cmp':
            return '%s %s %s' % (self.F(d - 1), o, self.F(d - 1))
        if k == 'icmp':
            return '%s %s %s' % (self.I(d - 1), o, self.I(d - 1))
        if k == 'not':
            return '!(%s)' % self.B(d - 1)
        return '(%s) %s (%s)' % (self.B(d - 1), self.pick(['&&', '||']), self.B(d - 1))

    # --- what is not: (type, text) of an expression, or ('stmt', text)
    def foreign(self, kind=None):
        kind = kind or self.pick(KINDS)
        r = getattr(self, 'x_' + kind)()
        self.tags.append(kind)
        return r

    def x_float_method(self):
        m, a = self.pick(FLOAT_METHODS)
        self.tags.append('f64.' + m)
        args = {0: '', 1: self.F(1), 'i': self.pick(['2', '3', '-1', 'n as i32']), 'c': '0.5, 2.5'}[a]
        if m == 'log' and self.flag():
            args = '2.0'
        return 'fty', '(%s as fty).%s(%s)' % (self.F(1), m, args)

    def int_method(self, t, methods, sub):
        m, a = self.pick(methods)
        self.tags.append('int.' + m)
        args = {0: '', 1: sub(1), 'n': self.pick(['2', '3', '5']), 'k': self.pick(['7', '3']), 's': self.pick(['1', '40', '63']), 'd': sub(1)}.get(a, '')
        text = '(%s as %s).%s(%s)' % (sub(1), t, m, args)
        if a == 'b':
            return 'bool', text
        if a in ('r', 'd'):
            return t, '(%s as %s)' % (text, t)
        if a == 'x':
            return t, '(%s as %s)' % (sub(1), t)
        return t, text

    def x_int_method(self):
        return self.int_method('ity', INT_METHODS, self.I)

    def x_uint_method(self):
        return self.int_method('uty', UINT_METHODS, self.U)

    def x_int32_method(self):
        t, e = self.int_method('i32', [m for m in INT_METHODS if m[1] != 'd'], lambda d: '(%s as i32)' % self.I(d))
        return (t if t == 'bool' else 'ity'), (e if t == 'bool' else '(%s as ity)' % e)

    def x_sin_cos(self):
        return 'fty', '(%s as fty).sin_cos().%d' % (self.F(1), self.pick([0, 1]))

    def x_remainder(self):
        return 'fty', '(%s %% %s)' % (self.F(1), self.F(1))

    def x_float_path(self):
        return 'fty', self.pick(FLOAT_PATHS)

    def x_int_path(self):
        return 'ity', self.pick(INT_PATHS)

    def x_function_path(self):
        f, args = self.pick([('f64::max', 2), ('f64::min', 2), ('fty::sqrt', 1), ('<f64>::powf', 2), ('f64::abs', 1), ('f64::from', 'i32'), ('f64::mul_add', 3),
                             ('std::convert::identity', 1), ('std::cmp::max', 'i'), ('self::helper', 1), ('crate::s::helper', 1), ('i64::from', 'i32'), ('i64::abs', 'i')])
        if args == 'i':
            return 'ity', '%s(%s%s)' % (f, self.I(1), ', ' + self.I(1) if 'max' in f else '')
        if args == 'i32':
            return ('fty' if 'f64' in f else 'ity'), '%s(%s as i32)' % (f, self.I(1))
        return 'fty', '%s(%s)' % (f, ', '.join(self.F(1) for _ in range(args)))

    def x_small_cast(self):
        t = self.pick(['u8', 'i8', 'u16', 'i16', 'i128', 'u128', 'isize', 'usize', 'i32', 'u32'])
        self.tags.append('as ' + t)
        e = self.pick(['(%s * %s)' % (self.I(1), self.pick(['12345678912345i64', '97i64', '70001i64'])), self.I(1), '(%s * 1234567u64)' % self.U(1), '@ity{%s * 1000.0@}' % self.F(1)])
        if self.flag(0.3):
            v = self.name()
            return 'ity', '{ let %s%s = %s as %s; (%s %s %s) as ity }' % (v, self.pick(['', ': ' + t]), e, t, v, self.pick('+-*/'), self.pick(['7', '3', v]))
        to = self.pick(['ity', 'fty', 'uty'])
        return to, '(%s as %s as %s)' % (e, t, to)

    def x_small_literal(self):
        t = self.pick(['u8', 'i8', 'u16', 'i16', 'i32', 'u32', 'usize', 'isize', 'u128', 'i128'])
        if t in SMALL:
            k = self.draw(st.integers(1, SMALL[t]))
            a = self.name()
            op = self.pick(['%s * %s' % (a, a), '%s + %s' % (a, a), '%s << 3' % a, '%s - 200' % a if t == 'u16' else '%s + 100' % a])
            return 'ity', '{ let %s = %d%s; (%s) as ity }' % (a, k, t, op)
        k = self.pick(['1%s << 31', '1%s << 20', '4000000000%s' if t != 'i32' else '400000%s', '65536%s * 65535', '1%s << 40' if t not in ('i32', 'u32') else '1%s << 9'])
        return 'ity', '((%s) as ity)' % (k % t)

    def x_f32(self):
        v = self.pick(['0.1f32', '1.7_f32', '3e-1f32', '16777217f32', '0.3f32', '5f32'])
        k = self.pick(['lit', 'var', 'typed', 'product', 'compare'])
        if k == 'lit':
            return 'fty', '(%s as fty)' % v
        if k == 'compare':
            return 'bool', '(%s as fty) %s %s' % (v, self.pick(['<', '==', '>']), v.replace('f32', '').strip('_'))
        a = self.name()
        return 'fty', '{ let %s%s = %s; (%s) as fty }' % (a, ': f32' if k == 'typed' else '', v, '%s * 0.7f32' % a if k == 'product' else a)

    def x_char(self):
        return 'ity', self.pick(["('a' as u32 as ity)", "(b'a' as ity)", '("abc".len() as ity)', '(b"ab".len() as ity)'])

    def x_bool(self):
        return 'bool', self.pick(['true', 'false', '%s == true' % ('(%s)' % self.B(1)), '(%s) == (%s)' % (self.B(0), self.B(0)), '(%s) ^ (%s)' % (self.B(0), self.B(0)),
                                  '(%s) & (%s)' % (self.B(0), self.B(0)), '(%s) < (%s)' % (self.B(0), self.B(0)), '(%s).is_nan()' % ('%s as fty' % self.F(1)),
                                  '(0.0..1.0).contains(&%s)' % self.F(0), '(%s, 1.0) < (%s, 2.0)' % (self.F(0), self.F(0))])

    def x_bool_let(self):
        v = self.name()
        t = self.pick(['', ': bool'])
        s = 'let %s%s = %s;' % (v, t, self.B(1))
        return 'ity', '{ %s (%s as ity) }' % (s, self.pick([v, '!' + v, '(%s && x < y)' % v, '(!%s || %s)' % (v, v), '(%s ^ %s)' % (v, '(x > y)')]))

    def x_array(self):
        a, b, c, d = (self.F(0) for _ in range(4))
        k = self.pick([1, 2, 3, 4, 5, 6])
        if k <= 2:
            return 'bool', '[%s, %s] %s [%s, %s]' % (a, b, self.pick(['==', '!=', '<']), c, d)
        if k == 3:
            v = self.name()
            return 'fty', '{ let %s = [%s, %s]; %s[%d] }' % (v, a, b, v, self.pick([0, 1]))
        if k == 4:
            return 'fty', '[%s, %s][%d]' % (a, b, self.pick([0, 1]))
        if k == 5:
            return 'ity', '([%s, %s].len() as ity)' % (a, b)
        return 'fty', '[%s, %s].iter().sum::<fty>()' % (a, b)

    def x_tuple(self):
        a, b = self.name(), self.name()
        return 'fty', self.pick(['{ let (%s, %s) = (%s, %s); %s - %s }' % (a, b, self.F(1), self.F(1), a, b), '(%s, %s).1' % (self.F(1), self.F(1)),
                                 '{ let %s = (%s, 2); %s.0 }' % (a, self.F(1), a), '{ let (%s, _) = (%s, 2); %s }' % (a, self.F(1), a)])

    def x_struct(self):
        self.items.append('#[derive(Clone, Copy, PartialEq)] struct Pair { a: fty, b: fty }')
        return 'fty', self.pick(['Pair { a: %s, b: %s }.a' % (self.F(1), self.F(1)), '{ let Pair { a, b } = Pair { a: %s, b: %s }; a - b }' % (self.F(1), self.F(1))])

    def x_closure(self):
        g, a = self.name(), self.name()
        return 'fty', '{ let %s = |%s: fty| %s * %s; %s(%s) }' % (g, a, a, self.F(1), g, self.F(1))

    def x_match(self):
        return 'fty', self.pick(['(match n { 0 => %s, 1 | 2 => %s, _ => %s })' % (self.F(1), self.F(1), self.F(1)),
                                 '(match %s { true => %s, false => %s })' % (self.B(1), self.F(1), self.F(1)),
                                 '(match %s { v if v < 0.0 => -v, v => v + 1.0 })' % self.F(1),
                                 '(if let 0..=3 = n { %s } else { %s })' % (self.F(1), self.F(1)),
                                 '(if let Some(v) = Some(%s) { v } else { 0.0 })' % self.F(1)])

    def x_block(self):
        return 'fty', self.pick(['unsafe { %s }' % self.F(1), '(loop { break %s; })' % self.F(1), "'a: { if %s { break 'a %s; } %s }" % (self.B(1), self.F(1), self.F(1)),
                                 '(|| %s)()' % self.F(1), '(*&%s)' % self.F(1), '{ %s; %s }' % (self.F(1), self.F(1)), '{ { { %s } } }' % self.F(1)])

    def x_shadow(self):
        v = self.pick([v for v, t in self.vars.items() if t == 'fty'])
        t = self.pick(['', ': fty'])
        mut = self.pick(['', 'mut '])
        w = self.pick(['%s * 2.0', '%s + 1.0', '%s - y', 'helper(%s)', '(%s as fty).abs() + 1.0', 'if %s > 0.0 { 1.0 } else { 2.0 }', '{ 3.0 * %s }']) % v
        change = '%s += 1.0; ' % v if mut else ''
        return 'fty', '({ let %s%s%s = %s; %s%s + %s } + %s)' % (mut, v, t, w, change, v, self.F(1), v)

    def x_shadow_int(self):
        v = self.pick([v for v, t in self.vars.items() if t == 'ity'])
        return 'ity', '({ let %s%s = %s; %s } - %s)' % (v, self.pick(['', ': ity']), self.pick(['%s + 1i64', '%s * %s', '(%s)', 'if %s > 0 { 5i64 } else { 6i64 }']).replace('%s', v),
                                                      v, v)

    def x_shadow_other_type(self):
        v = self.pick([v for v, t in self.vars.items() if t == 'fty'])
        return 'ity', '{ let %s: ity = @ity{%s@}; %s / 2 }' % (v, v, v)

    def x_shadow_statement(self):
        v = self.pick([v for v, t in self.vars.items() if t == 'fty'])
        return 'stmt', 'let %s%s%s = %s;' % (self.pick(['', 'mut ']), v, self.pick(['', ': fty']), self.pick(['%s * 2.0', '%s + y', '0.5', 'helper(%s)', '-%s']).replace('%s', v))

    def x_shadow_int_statement(self):
        return 'stmt', self.pick(['let n: ity = n + 1;', 'let n = n * n;', 'let m: uty = m >> 1;', 'let n = @ity{x@};', 'let x = n as fty;', 'let (x, y) = (y, x);'])

    def x_late_let(self):
        v = self.name()
        e = self.F(1)
        self.vars[v] = 'fty'
        return 'stmt', self.pick(['let V: fty; V = E;', 'let V; V = E;', 'let V: fty; if x < y { V = 1.0; } else { V = E; }', 'let V; if x < y { V = E } else { V = 2.0 }']).replace(
            'V', v).replace('E', e)

    def x_untyped_late_shadow(self):
        return 'fty', '({ let x; x = %s; x * 2.0 } + x)' % self.pick(['y', '0.5', '(y * 3.0)'])

    def x_pattern(self):
        v = self.name()
        e = self.F(1)
        self.vars[v] = 'fty'
        return 'stmt', self.pick(['let ref %s_ = %s; let %s = *%s_;', 'let %s_ @ _ = %s; let %s = %s_;', 'let (%s_,) = (%s,); let %s = %s_;', 'let [%s_] = [%s]; let %s = %s_;',
                                  'let &%s_ = &%s; let %s = %s_;', 'let %s_ = &%s; let %s = *%s_;', 'let Some(%s_) = Some(%s) else { panic!() }; let %s = %s_;']) % (v, e, v, v)

    def mut(self):
        if not self.muts:
            self.muts['a'] = 'fty'
        return 'a'

    def x_if_statement(self):
        a = self.mut()
        b, c = self.F(1), self.F(1)
        return 'stmt', self.pick(['if %s { a = %s; }', 'if %s { a += %s; }', 'if %s { a *= 2.0; } else if x > 0.0 { a = %s }', 'if %s { a = %s; } else { a -= 1.0; }',
                                  'if %s { a = %s } else { a = 1.0 }', 'if %s { a = %s } else { a += 1.0 };', 'if %s { a = %s }', 'if %s { a = %s; } else { }']) % (self.B(1), b)

    def x_while(self):
        self.mut()
        i = self.name()
        return 'stmt', self.pick(['let mut I = 0i64; while I < 3 { a += %s; I += 1; }', 'for I in 0..3 { a += %s; }', 'let mut I = 0i64; loop { if I > 2 { break; } a -= %s; I += 1; }',
                                  'for I in [1.0, 2.0] { a += I * %s; }', 'let mut I = 0i64; while I < 5 { I += 1; if I == 2 { continue; } a += %s; }', 'while a < 1.0 { a = a + 1.0 + (%s as fty).abs(); }',
                                  'for _ in 0..2 { a = a * %s; }']).replace('I', i) % self.F(1)

    def x_return(self):
        return 'stmt', self.pick(['if %s { return %s; }', 'if %s { return %s }', 'if %s { return %s; } else { }']) % (self.B(1), self.F(1))

    def x_match_statement(self):
        self.mut()
        return 'stmt', self.pick(['match n { 0 => a = %s, _ => a += 1.0 }', 'match n { 0 => { a = %s; } 1 => {} _ => { a = 2.0; } }', 'if let 1 = n { a = %s; }']) % self.F(1)

    def x_assign_forms(self):
        self.mut()
        return 'stmt', self.pick(['a = { a += 1.0; a * %s };', '{ a = %s; }', '(a) = %s;', 'let r = &mut a; *r = %s;', '(a, _) = (%s, 1.0);', 'a += { let b = 1.0; b } * %s;',
                                  'a = -(-a); a -= -%s;', 'a %%= %s;', '{ a -= %s }', 'std::mem::swap(&mut a, &mut %s.clone());']) % self.F(1)

    def x_macro(self):
        return self.pick([('stmt', 'assert!(true);'), ('stmt', 'debug_assert!(x == x || x != x, "no");'), ('fty', 'stringify!(ab).len() as fty'), ('stmt', 'let _ = format!("{}", n);'),
                          ('ity', '(line!() as ity * 0)'), ('bool', 'matches!(n, 0..=4)')])

    def x_item(self):
        v, k = self.name(), self.pick(['const', 'static', 'const2', 'fn', 'fn_inside', 'const_inside', 'generic', 'use_inside', 'mod', 'ref_arg', 'bool_fn', 'bool_arg', 'u32_fn',
                                       'mut_arg', 'const_fn', 'unit', 'enum', 'tuple_ret', 'static_inside', 'recursive', 'f32_fn', 'f32_arg', 'usize_fn', 'trait'])
        V = v.upper()
        a, b = self.pick(['0.75', '3.5', '1e3', '-2.0']), self.F(0)
        put = self.items.append
        self.tags.append('item ' + k)
        if k == 'const':
            put('const %s: fty = %s * 2.0 + 1.0;' % (V, a))
            return 'fty', V
        if k == 'const2':
            put('const %s: fty = %s; const %s2: fty = %s * %s;' % (V, a, V, V, V))
            return 'fty', V + '2'
        if k == 'static':
            put('static %s: fty = %s;' % (V, a))
            return 'fty', V
        if k == 'fn':
            put('fn %s() -> fty { %s }' % (v, a))
            return 'fty', v + '()'
        if k == 'fn_inside':
            return 'fty', '{ fn %s(q: fty) -> fty { q * %s } %s(%s) }' % (v, a, v, b)
        if k == 'const_inside':
            return 'fty', '{ const %s: fty = %s; %s * %s }' % (V, a, V, b)
        if k == 'static_inside':
            return 'fty', '{ static %s: fty = %s; %s * %s }' % (V, a, V, b)
        if k == 'generic':
            put('fn %s<T: Copy>(q: T) -> T { q }' % v)
            return 'fty', '%s(%s)' % (v, b)
        if k == 'use_inside':
            return 'fty', '{ use std::f64::consts::PI; PI * %s }' % b
        if k == 'mod':
            put('mod %s { pub fn k(q: f64) -> f64 { q + 1.0 } }' % v)
            return 'fty', '%s::k(%s)' % (v, b)
        if k == 'ref_arg':
            put('fn %s(q: &fty) -> fty { *q * 2.0 }' % v)
            return 'fty', '%s(&%s)' % (v, b)
        if k == 'bool_fn':
            put('fn %s(q: fty) -> bool { q < %s }' % (v, a))
            return 'bool', '%s%s(%s)' % (self.pick(['', '!']), v, b)
        if k == 'bool_arg':
            put('fn %s(q: fty, c: bool) -> fty { if %sc { q } else { %s } }' % (v, self.pick(['', '!']), a))
            return 'fty', '%s(%s, %s)' % (v, b, self.B(1))
        if k == 'u32_fn':
            put('fn %s(q: u32) -> u32 { q * 3000000000 }' % v)
            return 'ity', '(%s(%s as u32) as ity)' % (v, self.I(1))
        if k == 'usize_fn':
            put('fn %s(q: usize) -> usize { (q - 1) >> 1 }' % v)
            return 'ity', '(%s(%s as usize) as ity)' % (v, self.I(1))
        if k == 'f32_fn':
            put('fn %s(q: fty) -> f32 { q as f32 }' % v)
            return 'fty', '(%s(%s) as fty)' % (v, b)
        if k == 'f32_arg':
            put('fn %s(q: f32) -> fty { q as fty }' % v)
            return 'fty', '%s(%s as f32)' % (v, b)
        if k == 'mut_arg':
            put('fn %s(mut q: fty, mut k: ity) -> fty { q *= 2.0; k += 1; q + (k as fty) }' % v)
            return 'fty', '%s(%s, %s)' % (v, b, self.I(1))
        if k == 'const_fn':
            put('const fn %s(q: ity) -> ity { q * 2 }' % v)
            return 'ity', '%s(%s)' % (v, self.I(1))
        if k == 'unit':
            put('fn %s(q: fty) { }' % v)
            return 'stmt', '%s(%s);' % (v, b)
        if k == 'enum':
            put('#[derive(PartialEq, Clone, Copy)] enum E%s { A = 3, B }' % v)
            return 'ity', '(E%s::B as ity)' % v
        if k == 'tuple_ret':
            put('fn %s(q: fty) -> (fty, fty) { (q, %s) }' % (v, a))
            return 'fty', '%s(%s).1' % (v, b)
        if k == 'recursive':
            put('fn %s(k: ity) -> ity { if k <= 0 { 1 } else { k * %s(k - 2) } }' % (v, v))
            return 'ity', '%s(n & 15)' % v
        put('trait T%s { fn tw(self) -> fty; } impl T%s for fty { fn tw(self) -> fty { self * 2.0 } }' % (v, v))
        return 'fty', '(%s as fty).tw()' % b

    # --- around it
    def wrap(self, t, e, d=2):
        """The expression somewhere in a larger one, of type fty."""
        while d > 0 and self.flag(0.6):
            d -= 1
            if t == 'fty':
                k = self.pick(['+', 'neg', 'blk', 'arg', 'recv', 'if', 'cond', 'cast'])
                if k == '+':
                    e = self.pick(['(%s %s %s)', '%s %s %s']) % ((self.F(1), self.pick('+-*'), e) if self.flag() else ('(%s)' % e, self.pick('+-*'), self.F(1)))
                elif k == 'neg':
                    e = '(-(%s))' % e
                elif k == 'blk':
                    v = self.name()
                    e = '{ let %s%s = %s; %s + %s }' % (v, self.pick(['', ': fty']), e, v, self.F(0))
                elif k == 'arg':
                    e = 'helper(%s)' % e
                elif k == 'recv':
                    e = '(%s as fty).abs()' % ('(%s)' % e)
                elif k == 'if':
                    e = '(if %s { %s } else { %s })' % (self.B(1), e, self.F(1))
                elif k == 'cond':
                    t, e = 'bool', '(%s) < %s' % (e, self.F(0))
                else:
                    t, e = 'ity', '@ity{(%s)@}' % e
            elif t in ('ity', 'uty'):
                s = self.I if t == 'ity' else self.U
                k = self.pick(['+', '/', 'cond', 'arg', 'sh', 'let'])
                if k == '+':
                    e = '((%s) %s %s)' % (e, self.pick('+-*&|^'), s(1))
                elif k == '/':
                    e = '((%s) %s %s)' % (e, self.pick('/%'), self.pick(['3', '7', '2']))
                elif k == 'sh':
                    e = '((%s) %s %s)' % (e, self.pick(['<<', '>>']), self.pick(['1', '3', '20']))
                elif k == 'let':
                    v = self.name()
                    e = '{ let %s%s = %s; %s %s 2 }' % (v, self.pick(['', ': ' + t]), e, v, self.pick('/*'))
                elif k == 'cond':
                    t, e = 'bool', '(%s) > %s' % (e, s(0))
                else:
                    t, e = 'fty', '((%s) as fty)' % e
            else:
                k = self.pick(['not', 'and', 'if', 'cast'])
                if k == 'not':
                    e = '!(%s)' % e
                elif k == 'and':
                    e = '(%s) %s (%s)' % (e, self.pick(['&&', '||']), self.B(0))
                elif k == 'if':
                    t, e = 'fty', '(if %s { %s } else { %s })' % (e, self.F(1), self.F(1))
                else:
                    t, e = 'ity', '((%s) as ity)' % e
        if t == 'bool':
            return '(if %s { %s } else { %s })' % (e, self.F(0), self.F(0)) if self.flag(0.7) else '((%s) as ity as fty)' % e
        return '(%s)' % e if t == 'fty' else '((%s) as fty)' % e

    def program(self, kind):
        body, parts = [], []
        for i in range(self.pick([1, 1, 1, 1, 2, 3])):
            for _ in range(self.draw(st.integers(0, 2))):
                v = self.name()
                t = self.pick(['fty', 'fty', 'ity'])
                body.append('let %s: %s = %s;' % (v, t, self.F(2) if t == 'fty' else self.I(2)))
                self.vars[v] = t
            t, e = self.foreign(None if i else kind)
            if t == 'stmt':
                body.append(e)
            elif self.flag(0.3):
                v = self.name()
                body.append('let %s: fty = %s;' % (v, self.wrap(t, e)))
                self.vars[v] = 'fty'
            else:
                parts.append(self.wrap(t, e))
        if self.muts:
            body.insert(0, 'let mut a: fty = %s;' % self.pick(['x', '0.5', 'y']))
            parts.append('a')
        parts += [self.F(1)]
        parts += [v for v, t in self.vars.items() if v[0] == 'v' and t == 'fty']
        parts += ['(%s as fty)' % v for v, t in self.vars.items() if v[0] == 'v' and t == 'ity']
        items = list(dict.fromkeys(self.items))
        return {'items': items, 'body': body, 'result': ' + '.join(parts), 'tags': sorted(set(self.tags)), 'seed': self.draw(st.integers(0, 999))}


KINDS = sorted(n[2:] for n in dir(G) if n.startswith('x_'))
# Kinds with many variants, or that are mostly translated.
OFTEN = {'float_method': 6, 'int_method': 5, 'uint_method': 3, 'int32_method': 2, 'item': 6, 'small_cast': 4, 'small_literal': 3, 'f32': 2, 'shadow': 2, 'bool': 3,
         'assign_forms': 3, 'if_statement': 2, 'float_path': 2, 'block': 2, 'array': 2, 'tuple': 2, 'match': 2, 'function_path': 2}


@st.composite
def strange(draw, kind):
    return G(draw).program(kind)


def text(case, checked):
    helper = 'fn helper(q: fty) -> fty { q * 0.5 - 1.0 }'
    src = BOTH + '\n'.join(case['items']) + '\n' + helper + '\npub fn f(x: fty, y: fty, n: ity, m: uty) -> fty { %s %s }\n' % (' '.join(case['body']), case['result'])
    while True:
        # innermost first
        r = re.sub(r'@(\w+)\{((?:(?!@\w+\{|@\}).)*)@\}', (lambda m: 'crate::to_%s((%s) as f64)' % m.group(1, 2)) if checked else (lambda m: '((%s) as %s)' % m.group(2, 1)), src, flags=re.S)
        if r == src:
            return src
        src = r


TRUTH = '''#![allow(warnings, arithmetic_overflow, overflowing_literals, unconditional_panic)]
use std::sync::atomic::*;
static OUT: AtomicBool = AtomicBool::new(false);
fn to_ity(x: f64) -> i64 { if !(x > -9.2e18 && x < 9.2e18) { OUT.store(true, Ordering::Relaxed) } x as i64 }
mod s { use crate::*; %s }
fn main() {
    use std::io::*;
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = vec![];
    stdin().read_to_end(&mut b).unwrap();
    let v: Vec<f64> = b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    for r in v.chunks_exact(4) {
        OUT.store(false, Ordering::Relaxed);
        let y = std::panic::catch_unwind(|| s::f(r[0], r[1], r[2] as i64, r[3] as u64));
        stdout().write_all(&y.as_ref().map_or(0.0, |y| *y).to_le_bytes()).unwrap();
        stdout().write_all(&((y.is_err() || OUT.load(Ordering::Relaxed)) as u64).to_le_bytes()).unwrap();
    }
}
'''
STRICT = ['-fwrapv', '-fno-builtin', '-Werror=implicit-function-declaration', '-Werror=int-conversion', '-Werror=implicit-int']
C_MAIN = '''
#include <stdio.h>
int main() { double r[4]; while (fread(r, 8, 4, stdin) == 4) { double o = p_f(r[0], r[1], (long long)r[2], (unsigned long long)r[3]); fwrite(&o, 8, 1, stdout); } return 0; }
'''


def rows(case, n=32):
    rng = np.random.default_rng(case['seed'])
    x = np.round(rng.normal(size=(n, 2)) * 8) / rng.choice([1, 2, 4], (n, 1))
    x[: n // 4] = rng.normal(size=(n // 4, 2)) * 5
    x[0] = rng.choice([0.0, -1.0, 1.0, 2.5], 2)
    return np.column_stack([x, rng.integers(-20, 20, n), rng.integers(0, 40, n)])


def truth(case, d):
    rs = build.write(os.path.join(d, 't.rs'), TRUTH % text(case, True))
    exe = os.path.join(d, 't')
    if build.rustc(rs, exe, opt=False).returncode:
        return None
    r = subprocess.run([exe], input=rows(case).tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    out = np.frombuffer(r.stdout, dtype=np.float64)
    if r.returncode or len(out) != 64:
        return None
    return out[0::2], out[1::2].view(np.uint64) == 0


def c_outcome(drv, case, d):
    """('refused', why) or ('compiles', code, values)"""
    try:
        tag, r = drv.call('to_c', text(case, False), 'p_', '')
    except CheckError:
        return 'refused', 'not Rust', None
    if tag != 'OK':
        return 'refused', 'panics', None
    exe = os.path.join(d, 'm')
    if build.gcc(build.write(os.path.join(d, 'm.c'), r[0] + C_MAIN), exe, STRICT).returncode:
        return 'refused', 'not C', None
    p = subprocess.run([exe], input=rows(case).tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return 'compiles', r[0], np.frombuffer(p.stdout, dtype=np.float64) if p.returncode == 0 else None


def alike(a, b):
    return (a.view(np.int64) == b.view(np.int64)) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-13 * np.abs(b)) | (a == b)


# Translated wrongly, and known to be: what, and a program.
KNOWN_C = [
    ('! of an integer is logical in C', [], ['let v1: ity = !n;'], '(v1 as fty)'),
    ('integer literals without suffix are int in C', [], ['let v1 = 1; let v2: ity = v1 << 40;'], '(v2 as fty)'),
    ('to_bits of an f32 where fty is f64', [], ['let v1 = (x as f32).to_bits();'], '(v1 as fty)'),
    ('operands that change variables have no order in C', [], ['let mut a: fty = x;'], 'a + { a += 1.0; a }'),
]


@check('C42')
def c42(ctx):
    ctx.rule('Random functions of 64 bits with one to three constructs that the generated libraries do not use (methods, paths, integer types, '
             'literals, patterns, arrays, tuples, structs, closures, loops, match, early return, if statements, shadowing, items of all kinds) in '
             'random surroundings. to_c refuses (panics, or its text is not C), or the C computes what rustc says. Non-trivial: '
             'translated to C, accepted by rustc, and compared at one point or more at which no conversion is out of range.')
    ctx.assumptions.append('gcc -fwrapv -ffp-contract=off; implicit declarations are errors; libm functions agree to 1e-13 between rustc and gcc')
    drv = build.get_driver()

    def one(case):
        d = build.scratch_dir('c42')
        try:
            what, code, got = c_outcome(drv, case, d)
            label = 'refused: ' + code if what == 'refused' else 'translated'
            t = truth(case, d) if what == 'compiles' else None
        finally:
            shutil.rmtree(d, True)
        if what == 'compiles' and t is None:
            label = 'not Rust'
        ok = np.zeros(1, bool)
        if t is not None:
            want, ok = t
            if got is None or len(got) != len(want):
                raise Violation('C made from this ends abnormally\n%s\n%s' % (text(case, False), code), case.get('sig'))
            bad = ok & ~alike(got, want)
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                raise Violation('the C made from this compiles but gives %r for %r; the function gives %r\n%s\n%s' % (
                    float(got[i]), rows(case)[i].tolist(), float(want[i]), text(case, False), code), case.get('sig'))
        ctx.case('strange', {'source': text(case, False)}, bool(ok.any()), label)
        for k in case['tags']:
            ctx.labels['%s %s' % (k, label.split(':')[0])] = ctx.labels.get('%s %s' % (k, label.split(':')[0]), 0) + 1

    for sig, items, body, result in KNOWN_C:
        ctx.prop('known ' + sig, st.just({'items': items, 'body': body, 'result': result, 'tags': [], 'seed': 1, 'sig': sig}), one, 1, workers=1)
    for kind in KINDS:
        ctx.prop('strange ' + kind, strange(kind), one, ctx.n(28, 800) * OFTEN.get(kind, 1))
    drv.close()


# ------------------------------------------------------------------ methods
class S(G):
    """As G, in the style of what is translated to methods for vectors."""

    def F(self, d=2):
        k = self.pick(['var', 'var', 'lit'] if d <= 0 else ['var', 'lit', 'bin', 'bin', 'bin', 'method', 'if', 'cast', 'neg', 'blk', 'call'])
        if k == 'var':
            return self.pick([v for v, t in self.vars.items() if t == 'fty'])
        if k == 'lit':
            return self.pick(['0.5', '2.0', '1.25', '3.0', '0.1', '0.3_f64'])
        if k == 'bin':
            return '(%s %s %s)' % (self.F(d - 1), self.pick('+-*/'), self.F(d - 1))
        if k == 'method':
            m, n = self.pick([('abs', 0), ('recip', 0), ('copysign', 1), ('mul_add', 2)])
            return '(%s as fty).%s(%s)' % (self.F(d - 1), m, ', '.join(self.F(d - 1) for _ in range(n)))
        if k == 'if':
            return '(if %s { %s } else { %s })' % (self.B(d - 1), self.F(d - 1), self.F(d - 1))
        if k == 'cast':
            return '(%s as fty)' % self.pick([v for v, t in self.vars.items() if t in ('ity', 'uty')])
        if k == 'neg':
            return '(-%s)' % self.F(d - 1)
        if k == 'blk':
            v = self.name()
            return '{ let %s: fty = %s; %s * %s }' % (v, self.F(d - 1), v, self.F(0))
        return 'helper(%s)' % self.F(d - 1)

    def effect(self):
        """A block with an effect that outlives it, of type fty."""
        self.mut()
        return self.pick(['{ a = %s; a }', '{ a += %s; a * 2.0 }', '{ a -= %s; 1.0 }', '{ let r = &mut a; *r = %s; 2.0 }', '{ { a = %s; } y }', '{ let b = { a += %s; 3.0 }; b }',
                          'helper({ a = %s; a })', '{ std::mem::replace(&mut a, %s) }', '(|| { a += %s; 1.0 })()', '{ (a, _) = (%s, 1.0); 1.0 }']) % self.F(1)

    def x_branch_effect(self):
        k = self.pick(['then', 'else', 'both', 'deep'])
        if k == 'deep':
            return 'fty', '(if %s { if %s { %s } else { x } } else { y })' % (self.B(1), self.B(0), self.effect())
        return 'fty', '(if %s { %s } else { %s })' % (self.B(1), self.F(1) if k == 'else' else self.effect(), self.F(1) if k == 'then' else self.effect())

    def x_branch_local(self):
        return 'fty', '(if %s { { let mut b: fty = %s; b += 1.0; b } } else { %s })' % (self.B(1), self.F(1), self.F(1))

    def x_branch_statements(self):
        self.mut()
        return 'fty', self.pick(['(if C { a = E; a } else { D })', '(if C { let b = E; b * 2.0 } else { D })', '(if C { D } else { let b: fty = E; b + 1.0 })', '(if C { D } else { a += E; a })',
                                 '(if C { a = E; D } else { a = 1.0; D })', '(if C { helper(E); D } else { D })', '(if C { let x = E; x + 1.0 } else { x })', '(if C { return E; D } else { D })',
                                 '(if C { const K: fty = 2.0; K * E } else { D })', '(if C { D } else if y < E { let b = 1.0; b } else { 2.0 })']).replace(
            'C', self.B(1)).replace('D', self.F(1)).replace('E', self.F(1))

    def x_branch_exit(self):
        return 'fty', self.pick(['(if C { return E } else { D })', '(if C { D } else { return E })', '(if C { return E; } else { D })', '(if C { { let b = 1.0; return E } } else { D })',
                                 "'q: { if C { break 'q E } else { D } }", '(loop { if C { break E } else { break D } })', '(loop { let b = if C { break E } else { D }; break b + 1.0; })',
                                 '(if C { panic!() } else { D })', '(if C { (|| { return E })() } else { D })']).replace('C', self.B(1)).replace('D', self.F(1)).replace('E', self.F(1))

    def x_lazy_effect(self):
        c = '(%s) > 1.0' % self.effect()
        return 'bool', self.pick(['(%s) && %s', '(%s) || %s', '!((%s) && %s)']) % (self.B(1), c)

    def x_lazy_exit(self):
        return 'bool', self.pick(['(%s) && { return %s }', '(%s) || { return %s; }']) % (self.B(1), self.F(1))

    def x_if_semicolon(self):
        self.mut()
        return 'stmt', self.pick(['if %s { a = %s } else { a = 1.0 }', 'if %s { a = %s; } else { a = 1.0; }', 'if %s { helper(%s); } else { a += 1.0; }', 'if %s { a = %s }',
                                  'let _ = if %s { a = %s } else { a = 2.0 };', '(if %s { a = %s } else { });']) % (self.B(1), self.F(1))

    def number(self):
        return self.pick(['1 << 31', '!0', '5', '0 - 3', '7 * 3', '1 << 29', '2147483647 + 2', '-1', '-(5)', '{ 3 - 4 }', '(1 - 2)', '255', '1 << 40', '3000000000', '70000 * 70000'])

    def use_int(self, v, t=''):
        s = {'uty': 'u64', 'ity': 'i64'}.get(t, t) if self.flag(0.8) else ''
        return self.pick(['(%s >> 1_)', '(%s >> 3_)', '%s', '(%s * 3_)', '(%s & 255_)', '(%s | 1_)', '(%s - 1_)', '(%s + 2_)', '(%s << 2_)', '(!%s)', '(%s * %s)', '(%s / 3_)', '(%s % 7_)']).replace(
            '%s', v).replace('_)', s + ')')

    def x_typed_let(self):
        v, t = self.name(), self.pick(['uty', 'uty', 'uty', 'ity', 'u64', 'i64', 'u32', 'i32', 'u8', 'usize'])
        return 'fty', '({ let %s: %s = %s; %s as fty })' % (v, t, self.number(), self.use_int(v, t))

    def x_typed_tuple(self):
        v, w, t = self.name(), self.name(), self.pick(['uty', 'ity', 'u32'])
        return 'fty', '({ let (%s, %s): (%s, %s) = (%s, %s); (%s %s %s) as fty })' % (v, w, t, t, self.number(), self.number(), v, self.pick('+-&'), self.use_int(w, t))

    def x_late_typed(self):
        v, t = self.name(), self.pick(['uty', 'uty', 'ity', 'fty', 'bool'])
        if t == 'bool':
            return 'bool', '{ let %s: bool; %s = %s; %s }' % (v, v, self.B(1), v)
        if t == 'fty':
            return 'fty', '{ let %s: fty; %s = %s; %s * 2.0 }' % (v, v, self.F(1), v)
        return 'fty', '({ let %s: %s; %s = %s; %s as fty })' % (v, t, v, self.number(), self.use_int(v, t))

    def x_untyped_int(self):
        v, w = self.name(), self.name()
        return 'fty', self.pick(['({ let V = N; let W: ity = V; U as fty })', '({ let V = N; (m + V) as fty })', '({ let V = N; (n * V) as fty })', '((m & (N)) as fty)',
                                 '((n + (N)) as fty)', '((m >> (3)) as fty)', '(if m > N { x } else { y })', '(if n <= N { x } else { y })']).replace(
            'U', self.use_int(w, 'ity')).replace('V', v).replace('W', w).replace('N', self.number())

    def x_const(self):
        v, t = self.name().upper(), self.pick(['uty', 'uty', 'ity', 'u32', 'i32', 'u64', 'i64', 'u8', 'f32', 'f64', 'fty', 'usize', 'bool'])
        self.tags.append('const ' + t)
        if t == 'bool':
            self.items.append('const %s: bool = %s;' % (v, self.pick(['true', '1.0 < 2.0', '!(1 > 2)'])))
            return 'bool', v
        if t in ('f32', 'f64', 'fty'):
            self.items.append('const %s: %s = %s;' % (v, t, self.pick(['0.1', '16777217.0', '1e30', '1.0 / 3.0', '-0.7'])))
            return 'fty', self.pick(['(%s as fty)', '%s', '((%s * 3.0) as fty)']) % v
        self.items.append('const %s: %s = %s;' % (v, t, self.number()))
        if self.flag(0.3):
            self.items.append('const %s2: %s = %s;' % (v, t, self.use_int(v, t)))
            v += '2'
        return 'fty', '(%s as fty)' % self.use_int(v, t)

    def x_const_order(self):
        v = self.name().upper()
        self.items += self.pick([['const %sA: fty = %sB * 2.0;' % (v, v), 'const %sB: fty = 1.5;' % v], ['const %sB: fty = 1.5;' % v, 'const %sA: fty = %sB * 2.0;' % (v, v)]])
        return 'fty', self.pick(['%sA', '(%sA + %sB)', '(%sB - %sA)']).replace('%s', v)

    def x_const_shadowed(self):
        v = self.name().upper()
        self.items.append('const %s: fty = 1.5;' % v)
        return 'fty', self.pick(['({ let V_ = V; V_ * x })', '({ const V: fty = 2.5; V } + V)', '({ fn V() -> fty { 2.0 } V() })', '(|V_: fty| V_ * V)(2.0)']).replace('V', v)

    def x_closure_named(self):
        return 'fty', self.pick(['({ let helper = |q: fty| q * 3.0; helper(%s) })', '({ let helper = |q: fty| q * 3.0; helper(%s) + x } + helper(y))', '({ fn helper(q: fty) -> fty { q * 3.0 } helper(%s) })',
                                 '((|helper: fn(fty) -> fty| helper(%s))(|q| q + 7.0))']) % self.F(1)

    def x_first_arg(self):
        v, k = self.name(), self.pick(['ity', 'uty', 'f32', 'f64', 'bool', 'u8', 'unused', 'mut', 'pattern', 'array', 'none', 'mut2'])
        put = self.items.append
        self.tags.append('first ' + k)
        if k in ('ity', 'uty', 'u8'):
            put('fn %s(q: %s, z: fty) -> fty { %s + z }' % (v, k, self.pick(['(q as fty)', '((q / 2) as fty)', '((q & 3) as fty)', '1.0'])))
            return 'fty', '%s(%s, %s)' % (v, self.pick(['n as K', 'x as K', '3', '(%s) as K' % self.I(1)]).replace('K', k), self.F(1))
        if k in ('f32', 'f64'):
            put('fn %s(q: %s) -> fty { (q * 1.1) as fty }' % (v, k))
            return 'fty', '%s(%s as %s)' % (v, self.F(1), k)
        if k == 'bool':
            put('fn %s(q: bool, z: fty) -> fty { if q { z } else { 1.0 } }' % v)
            return 'fty', '%s(%s, %s)' % (v, self.B(1), self.F(1))
        if k == 'unused':
            put('fn %s(_q: %s, z: fty) -> fty { z * 3.0 }' % (v, self.pick(['fty', 'ity', 'bool'])))
            return 'fty', '%s(%s, %s)' % (v, self.pick(['x', 'n', 'x < y', 'y']), self.F(1))
        if k == 'mut':
            put('fn %s(mut q: fty, z: fty) -> fty { q += z; q }' % v)
            return 'fty', '%s(%s, %s)' % (v, self.F(1), self.F(1))
        if k == 'mut2':
            put('fn %s(q: fty, mut z: fty) -> fty { z += q; z }' % v)
            return 'fty', '%s(%s, %s)' % (v, self.F(1), self.F(1))
        if k == 'pattern':
            put('fn %s((q, z): (fty, fty)) -> fty { q - z }' % v)
            return 'fty', '%s((%s, %s))' % (v, self.F(1), self.F(1))
        if k == 'none':
            put('fn %s() -> fty { 2.0 }' % v)
            return 'fty', v + '()'
        put('fn %s(q: [fty; 2]) -> fty { q[0] }' % v)
        return 'fty', '%s([%s, %s])' % (v, self.F(1), self.F(1))

    def x_result(self):
        v, k = self.name(), self.pick(['ity', 'uty', 'f32', 'f64', 'bool', 'u8', 'tuple', 'unit'])
        self.tags.append('result ' + k)
        put = self.items.append
        if k in ('ity', 'uty', 'u8'):
            put('fn %s(q: fty, z: ity) -> %s { %s }' % (v, k, self.pick(['z as %s' % k, '(z * 70001) as %s' % k, '3', 'q as %s' % k])))
            return 'fty', '(%s(%s, %s) as fty)' % (v, self.F(1), self.I(1))
        if k in ('f32', 'f64'):
            put('fn %s(q: fty) -> %s { (q * 1.1) as %s }' % (v, k, k))
            return 'fty', '(%s(%s) as fty)' % (v, self.F(1))
        if k == 'bool':
            put('fn %s(q: fty) -> bool { q < 1.0 }' % v)
            return 'bool', '%s(%s)' % (v, self.F(1))
        if k == 'tuple':
            put('fn %s(q: fty) -> (fty, fty) { (q, 1.0) }' % v)
            return 'fty', '%s(%s).%d' % (v, self.F(1), self.pick([0, 1]))
        put('fn %s(q: fty) { }' % v)
        return 'stmt', '%s(%s);' % (v, self.F(1))

    def x_other_arg(self):
        v, k = self.name(), self.pick(['ity', 'uty', 'f32', 'f64', 'bool', 'u8', 'u64', 'i64', 'u32', 'i32', 'ref', 'tuple', 'array'])
        self.tags.append('other ' + k)
        if k == 'bool':
            self.items.append('fn %s(z: fty, q: bool) -> fty { if q { z } else { 1.0 } }' % v)
            return 'fty', '%s(%s, %s)' % (v, self.F(1), self.B(1))
        if k in ('ref', 'tuple', 'array'):
            t, u, c = {'ref': ('&fty', '*q', '&(%s)'), 'tuple': ('(fty, fty)', 'q.0', '(%s, x)'), 'array': ('[fty; 2]', 'q[1]', '[y, %s]')}[k]
            self.items.append('fn %s(z: fty, q: %s) -> fty { z - %s }' % (v, t, u))
            return 'fty', '%s(%s, %s)' % (v, self.F(1), c % self.F(1))
        self.items.append('fn %s(z: fty, q: %s) -> fty { %s + z }' % (v, k, self.pick(['(q as fty)', '((q / 2) as fty)' if k[0] in 'ui' else '((q * 0.1) as fty)', '((q + q) as fty)', '1.0'])))
        return 'fty', '%s(%s, %s as %s)' % (v, self.F(1), self.pick(['n', 'x', '(%s)' % self.F(1), '300']), k)

    def x_fty_path(self):
        return 'fty', self.pick(['fty::from_bits(m)', 'f64::from_bits(m)', 'fty::from_bits(%s.to_bits() + 1u64)' % self.F(0), 'f64::from_bits(0x3ff0000000000000u64)', 'fty::abs(%s)' % self.F(1),
                                 'f64::mul_add(%s, %s, 1.0)' % (self.F(1), self.F(1)), 'fty::NAN', 'f64::NAN', 'f64::INFINITY', 'f64::MAX', '(-f64::MIN_POSITIVE)', 'f64::EPSILON', 'f32::NAN as fty',
                                 '(f32::MIN_POSITIVE as fty)', '(f32::INFINITY as fty)', 'f64::from_bits(5)', 'fty::default()', '(%s).clone()' % self.F(1)])

    def x_path_call(self):
        v, f = self.name(), self.pick(['helper', 'abs', 'recip', 'helper'])
        self.items.append(self.pick(['mod %s { pub fn %s(q: f64) -> f64 { q * 3.0 } }', 'struct %s; impl %s { fn %s(q: fty) -> fty { q * 3.0 } }', 'enum %s { } impl %s { fn %s(q: fty) -> fty { -q } }'])
                          .replace('%s', v, 1).replace('impl %s', 'impl ' + v).replace('%s', f))
        return 'fty', self.pick(['%s::%s(%s)', '(%s::%s(%s) + x)', 'self::%s::%s(%s)']) % (v, f, self.F(1))

    def x_bits(self):
        return self.pick([('uty', '(%s as fty).to_bits()' % self.F(1)), ('ity', '((%s as fty).to_bits() as ity)' % self.F(1)), ('ity', '(!(n))'), ('uty', '(!m)'), ('ity', '(n / 3)'), ('ity', '(n % 3)'),
                          ('ity', '(n >> 70)'), ('ity', '(n << m)'), ('uty', '(m << 3i64)'), ('ity', '(n >> 3u64)'), ('ity', '(n * -1)'), ('uty', '(m - 50)'), ('ity', '(-n)')])

    def x_for_each(self):
        self.mut()
        return 'stmt', self.pick(['for i in [1.0, 2.0] { a += i * %s; }', 'for i in [x, y].iter() { a = a * *i + %s; }', 'for _ in 0..2 { a += %s; }', 'loop { a = %s; break; }',
                                  'while let Some(q) = None::<fty> { a = %s; }', 'for i in [x, y] { if i < 0.0 { continue } else { a += %s; } }']) % self.F(1)


KINDS_S = [k for k in sorted(n[2:] for n in dir(S) if n.startswith('x_')) if k not in ()]
NEW_S = {'branch_effect': 3, 'branch_local': 1, 'branch_statements': 3, 'branch_exit': 3, 'lazy_effect': 2, 'lazy_exit': 1, 'if_semicolon': 1, 'typed_let': 4, 'typed_tuple': 2, 'late_typed': 2, 'untyped_int': 3, 'const': 4,
         'const_order': 1, 'const_shadowed': 1, 'closure_named': 2, 'first_arg': 3, 'result': 2, 'other_arg': 3, 'fty_path': 2, 'path_call': 1, 'bits': 2, 'for_each': 1}


@st.composite
def strange_simd(draw, kind):
    g = S(draw)
    case = g.program(kind)
    case['bits'] = draw(st.sampled_from([32, 64]))
    return case


def text_simd(case):
    src = text(case, False)
    if case['bits'] == 32:
        for a, b in (('64', '32'), ('5000000000', '500000'), ('0x3ff0000000000000', '0x3f800000')):
            src = src.replace(a, b)
    return src


SIMD_MAIN = '''#![allow(warnings, arithmetic_overflow, overflowing_literals, unconditional_panic)]
extern crate simd_shim;
pub use simd_shim::{simd, StdFloat};
pub trait StdLibm: Sized { type IntType; type UintType; %(sigs)s }
mod s { %(scalar)s }
mod g { #![deny(overflowing_literals)] %(simd)s }
fn main() {
    use std::io::*;
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = vec![];
    stdin().read_to_end(&mut b).unwrap();
    let v: Vec<f64> = b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    let r: Vec<&[f64]> = v.chunks_exact(4).collect();
    const L: usize = %(lanes)d;
    type F = f%(bits)d; type I = i%(bits)d; type U = u%(bits)d;
    let mut o: Vec<f64> = vec![];
    for c in r.chunks_exact(L) {
        let want: Vec<_> = c.iter().map(|q| std::panic::catch_unwind(|| s::f(q[0] as F, q[1] as F, q[2] as I, q[3] as U)).ok()).collect();
        let fs = |i: usize| simd::Simd::<F, L>(std::array::from_fn(|j| c[j][i] as F));
        let got = std::panic::catch_unwind(|| StdLibm::f(fs(0), fs(1), simd::Simd::<I, L>(std::array::from_fn(|j| c[j][2] as I)), simd::Simd::<U, L>(std::array::from_fn(|j| c[j][3] as U)))).ok();
        let whole = want.iter().all(|w| w.is_some());
        for j in 0..L {
            o.push(if whole { if got.is_some() { 1.0 } else { 2.0 } } else { 0.0 });
            o.push(want[j].unwrap_or(0.0) as f64);
            o.push(got.map_or(0.0, |g| g.0[j]) as f64);
        }
    }
    stdout().write_all(&o.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
}
'''


def make_shim(d):
    shim = os.path.join(d, 'libsimd_shim.rlib')
    r = build.run(['rustc', '--edition=2021', '--crate-type', 'rlib', '--crate-name', 'simd_shim', '-C', 'overflow-checks=off', '-A', 'warnings', '-o', shim,
                   os.path.join(N.LIB, 'simd_shim.rs')])
    if r.returncode:
        raise CheckError('the shim does not compile: ' + r.stderr.decode()[:2000])
    return shim


def signatures(code):
    """What a trait has to declare for these methods."""
    i = code.index('type UintType')
    body = code[code.index(';', i):]
    out, depth, k = [], 0, 0
    for m in re.finditer(r'[{}]|\bfn\b', body):
        if m.group() == '{':
            depth += 1
        elif m.group() == '}':
            depth -= 1
        elif depth == 0:
            end = body.index('{', m.end())
            sig = ' '.join(body[m.start():end].split())
            out.append(re.sub(r'\bmut\b', '', sig) + ';')
    return ' '.join(out)


KNOWN_SIMD = []


@check('C43')
def c43(ctx):
    ctx.rule('Random functions of 32 and 64 bits with one to three constructs that the generated libraries do not use (those of C42, and effects and '
             'exits in branches and in the second operand of && and ||, typed and untyped integers, constants of every type, parameters and results of '
             'other types, closures named as functions). to_simd refuses (panics, or rustc rejects the methods), or the methods, in vectors of 1, 3 or '
             '4 lanes, give in each lane the bits of the function. Non-trivial: compiled, and compared at one point or more.')
    ctx.assumptions.append('lib/simd_shim.rs, a stand-in that works element by element, is compiled in place of the portable-simd crate')
    drv = build.get_driver()
    d0 = build.scratch_dir('c43shim')
    shim = make_shim(d0)

    def one(case):
        src = text_simd(case)
        tag, r = None, None
        try:
            tag, r = drv.call('to_simd', src, case['bits'])
        except CheckError:
            pass
        label = 'not Rust' if tag is None else 'panics'
        points = 0
        if tag == 'OK':
            lanes = [1, 3, 4][case['seed'] % 3]
            d = build.scratch_dir('c43')
            try:
                main = build.write(os.path.join(d, 'm.rs'), SIMD_MAIN % {'sigs': signatures(r[0]), 'scalar': src, 'simd': r[0], 'lanes': lanes, 'bits': case['bits']})
                exe = os.path.join(d, 'm')
                g = build.rustc(main, exe, opt=False, extra=['--extern', 'simd_shim=' + shim])
                label = 'translated' if g.returncode == 0 else 'does not compile'
                if g.returncode == 0:
                    p = subprocess.run([exe], input=rows(case, 24).tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                    o = np.frombuffer(p.stdout, dtype=np.float64).reshape(-1, 3)
                    if p.returncode or len(o) != 24:
                        raise Violation('the methods, or the functions, end abnormally\n%s\n%s' % (src, r[0]), case.get('sig'))
                    st_, want, got = o.T
                    want, got = np.ascontiguousarray(want), np.ascontiguousarray(got)
                    ok = (want.view(np.int64) == got.view(np.int64)) | (np.isnan(want) & np.isnan(got))
                    bad = (st_ == 2) | ((st_ == 1) & ~ok)
                    if bad.any():
                        i = int(np.nonzero(bad)[0][0])
                        raise Violation('the methods made from this compile but %s for %r; the function gives %r\n%s\n%s' % (
                            'panic' if st_[i] == 2 else 'give %r' % float(got[i]), rows(case, 24)[i].tolist(), float(want[i]), src, r[0]), case.get('sig'))
                    points = int((st_ == 1).sum())
            finally:
                shutil.rmtree(d, True)
        ctx.case('strange', {'source': src, 'bits': case['bits']}, points > 0, label)
        for k in case['tags']:
            ctx.labels['%s %s' % (k, label)] = ctx.labels.get('%s %s' % (k, label), 0) + 1

    for sig, items, body, result in KNOWN_SIMD:
        ctx.prop('known ' + sig, st.just({'items': items, 'body': body, 'result': result, 'tags': [], 'seed': 1, 'bits': 64, 'sig': sig}), one, 1, workers=1)
    for kind in KINDS_S:
        ctx.prop('strange ' + kind, strange_simd(kind), one, ctx.n(24, 700) * NEW_S.get(kind, 1) if kind in NEW_S else ctx.n(10, 300))
    drv.close()
