"""Expression trees of the checks: parsing of the driver's s-expressions, rendering as Rust source,
exact and high-precision evaluation, generators."""
import hashlib, re
from fractions import Fraction

from hypothesis import strategies as st

# --- s-expressions -----------------------------------------------------------
_tok = re.compile(r'\s*(\(|\)|"(?:[^"\\]|\\.)*"|[^\s()"]+)')


def parse(s):
    toks = _tok.findall(s)
    pos = [0]

    def atom(t):
        if t.startswith('"'):
            return re.sub(r'\\(.)', r'\1', t[1:-1])
        return t

    def go():
        t = toks[pos[0]]
        pos[0] += 1
        assert t == '(', s
        h = toks[pos[0]]
        pos[0] += 1
        rest = []
        while toks[pos[0]] != ')':
            if toks[pos[0]] == '(':
                rest.append(go())
            else:
                rest.append(atom(toks[pos[0]]))
                pos[0] += 1
        pos[0] += 1
        return make(h, rest)

    def make(h, r):
        if h in ('F', 'I'):
            return (h, r[0], '' if r[1] == '-' else r[1])
        if h in ('B', 'L', 'V', 'X'):
            return (h, r[0])
        if h == 'P':
            return ('P', r[0])
        if h == 'U':
            return ('U', r[0], r[1])
        if h == 'O':
            return ('O', r[0], r[1], r[2])
        if h == 'M':
            return ('M', r[0], r[1], tuple(r[2:]))
        if h == 'C':
            return ('C', r[0], tuple(r[1:]))
        if h == 'D':
            return ('D', r[0], r[1])
        if h == 'A':
            return ('A', r[0], r[1])
        raise ValueError(h)

    e = go()
    assert pos[0] == len(toks), s
    return e


def from_json(x):
    """Replayed cases are lists; the trees are tuples."""
    if isinstance(x, list):
        return tuple(from_json(i) for i in x)
    return x


def children(e):
    k = e[0]
    if k == 'P':
        return [e[1]]
    if k == 'U':
        return [e[2]]
    if k == 'O':
        return [e[2], e[3]]
    if k == 'M':
        return [e[2]] + list(e[3])
    if k == 'C':
        return [e[1]] + list(e[2])
    if k in ('D', 'A'):
        return [e[1]]
    return []


def rebuild(e, ch):
    k = e[0]
    if k == 'P':
        return ('P', ch[0])
    if k == 'U':
        return ('U', e[1], ch[0])
    if k == 'O':
        return ('O', e[1], ch[0], ch[1])
    if k == 'M':
        return ('M', e[1], ch[0], tuple(ch[1:]))
    if k == 'C':
        return ('C', ch[0], tuple(ch[1:]))
    if k == 'D':
        return ('D', ch[0], e[2])
    if k == 'A':
        return ('A', ch[0], e[2])
    return e


def walk(e):
    yield e
    for c in children(e):
        yield from walk(c)


def size(e):
    return sum(1 for _ in walk(e))


def strip(e):
    """Without parentheses."""
    if e[0] == 'P':
        return strip(e[1])
    return rebuild(e, [strip(c) for c in children(e)])


PREC = {'*': 9, '/': 9, '%': 9, '+': 8, '-': 8, '<<': 7, '>>': 7, '&': 6, '^': 5, '|': 4,
        '==': 3, '!=': 3, '<': 3, '<=': 3, '>': 3, '>=': 3, '&&': 2, '||': 1}


def prec(e):
    k = e[0]
    if k == 'O':
        return PREC[e[1]]
    if k == 'U':
        return 11
    if k == 'A':
        return 10
    return 12


def ends_in_cast(e):
    """Whether the last token belongs to a type, after which < would start its arguments."""
    if e[0] == 'A':
        return True
    return e[0] in 'OU' and ends_in_cast(e[-1])


def norm(e):
    """Insert the parentheses that the tree needs to be written down as Rust."""
    ch = [norm(c) for c in children(e)]
    k = e[0]

    def need(c, p):
        if c[0] in ('F', 'I') and c[1].startswith('-'):
            return ('P', c)
        return c if prec(c) >= p else ('P', c)

    if k == 'O':
        p = PREC[e[1]]
        l, r = ch
        if p == 3:
            l, r = need(l, 4), need(r, 4)
        else:
            l, r = need(l, p), need(r, p + 1)
        if e[1] in ('<', '<<', '<=') and ends_in_cast(l):
            l = ('P', l)
        ch = [l, r]
    elif k == 'U':
        ch = [need(ch[0], 11)]
    elif k in ('M', 'D'):
        ch = [need(ch[0], 12)] + ch[1:]
    elif k == 'C':
        ch = [need(ch[0], 12)] + ch[1:]
        if ch[0][0] == 'D':
            ch[0] = ('P', ch[0])
    elif k == 'A':
        ch = [need(ch[0], 10)]
    return rebuild(e, ch)


def render(e):
    k = e[0]
    if k in ('F', 'I'):
        return e[1] + e[2]
    if k == 'B':
        return e[1]
    if k in ('L', 'V', 'X'):
        return e[1]
    if k == 'P':
        return '(' + render(e[1]) + ')'
    if k == 'U':
        # -- would lex fine in Rust too, a space keeps it readable
        return e[1] + ' ' + render(e[2])
    if k == 'O':
        return '%s %s %s' % (render(e[2]), e[1], render(e[3]))
    if k == 'M':
        r = render(e[2])
        if e[2][0] in ('I', 'F'):
            r += ' '
        return '%s.%s(%s)' % (r, e[1], ', '.join(render(a) for a in e[3]))
    if k == 'C':
        return '%s(%s)' % (render(e[1]), ', '.join(render(a) for a in e[2]))
    if k == 'D':
        r = render(e[1])
        if e[1][0] in ('I', 'F'):
            r += ' '
        return '%s.%s' % (r, e[2])
    if k == 'A':
        return '%s as %s' % (render(e[1]), e[2])
    raise ValueError(k)


# --- exact evaluation, other operations uninterpreted --------------------------
class Undefined(Exception):
    pass


def lit_value(e):
    d = e[1].replace('_', '')
    return Fraction(int(d, 0) if d[:2] in ('0x', '0o', '0b') else d)


def _hash_value(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=6).digest()
    n = int.from_bytes(h, 'big')
    return Fraction(n % 2003 - 1001, 7 + n // 2003 % 11)


def exact(e, env, salt=''):
    """Value over the rationals. Methods, calls, fields, casts and operators other than + - * / and
    negation are uninterpreted functions of the values of their operands."""
    k = e[0]
    if k in ('F', 'I'):
        return lit_value(e)
    if k == 'V':
        if e[1] not in env:
            return _hash_value('var', e[1], salt)
        return env[e[1]]
    if k == 'P':
        return exact(e[1], env, salt)
    if k == 'U':
        v = exact(e[2], env, salt)
        if e[1] == '-':
            return -v
        return _hash_value('un', e[1], v, salt)
    if k == 'O':
        a, b = exact(e[2], env, salt), exact(e[3], env, salt)
        o = e[1]
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if o == '*':
            return a * b
        if o == '/':
            if b == 0:
                raise Undefined()
            return a / b
        return _hash_value('op', o, a, b, salt)
    if k == 'M':
        return _hash_value('m', e[1], exact(e[2], env, salt), [exact(a, env, salt) for a in e[3]], salt)
    if k == 'C':
        f = e[1][1] if e[1][0] == 'V' else exact(e[1], env, salt)
        return _hash_value('c', f, [exact(a, env, salt) for a in e[2]], salt)
    if k == 'D':
        return _hash_value('d', exact(e[1], env, salt), e[2], salt)
    if k == 'A':
        return _hash_value('a', exact(e[1], env, salt), e[2], salt)
    if k in ('B', 'L', 'X'):
        return _hash_value(k, e[1], salt)
    raise ValueError(k)


# --- generators -------------------------------------------------------------------
names = st.sampled_from(['x', 'y', 'z', 'a', 'xx', 'x1', 'PI', 'foo'])
simple_names = st.sampled_from(['x', 'y', 'z', 'a', 'b'])

_digits = st.text('0123456789', min_size=1, max_size=6)


@st.composite
def int_lits(draw, suffixes=('',)):
    v = draw(st.one_of(st.integers(0, 12), st.integers(0, 10 ** 6), st.integers(0, 2 ** 62)))
    return ('I', str(v), draw(st.sampled_from(suffixes)))


@st.composite
def float_lits(draw, suffixes=('',), exps=True, maxdigits=22):
    i = draw(st.one_of(st.just('0'), st.integers(0, 9).map(str), st.integers(0, 10 ** 8).map(str)))
    f = draw(st.one_of(st.sampled_from(['0', '5', '25', '125', '1', '3', '75']),
                       st.text('0123456789', min_size=1, max_size=maxdigits)))
    s = i + '.' + f
    if exps and draw(st.integers(0, 5)) == 0:
        s += 'e' + draw(st.sampled_from(['1', '-1', '2', '-3', '5', '-7', '10', '-12']))
    return ('F', s, draw(st.sampled_from(suffixes)))


def exprs(leaves, unary=('-',), binary=('+', '-', '*', '/'), methods=(), calls=(), fields=(), casts=(),
          parens=True, max_leaves=12):
    """Trees over the given operations. methods: (name, number of arguments)."""
    wrappers = []
    if unary:
        wrappers += ['U', 'U']
    if parens:
        wrappers.append('P')
    if any(m[1] == 0 for m in methods):
        wrappers += ['M', 'M']
    if any(c[1] == 1 for c in calls):
        wrappers.append('C')
    if fields:
        wrappers.append('D')
    if casts:
        wrappers.append('A')
    by_args = {}
    for m in methods:
        by_args.setdefault(('M', m[1]), []).append(m[0])
    for c in calls:
        by_args.setdefault(('C', c[1]), []).append(c[0])
    multi = [k for k in by_args if k[1] >= (1 if k[0] == 'M' else 2)]
    # 0 stops wrapping, so that shrinking removes wrappers
    wrap = st.sampled_from([None] * max(3, len(wrappers)) + wrappers)

    def build(draw, n, depth):
        if n <= 1:
            e = draw(leaves)
        else:
            kinds = (['O'] * 4 if binary else []) + [k for k in multi if k[1] + (k[0] == 'M') <= n]
            if not kinds:
                e = draw(leaves)
            else:
                k = draw(st.sampled_from(kinds))
                parts = 2 if k == 'O' else k[1] + (k[0] == 'M')
                left, sizes = n, []
                for i in range(parts - 1):
                    s = draw(st.integers(1, max(1, left - (parts - 1 - i))))
                    sizes.append(s)
                    left -= s
                sizes.append(max(1, left))
                ch = [build(draw, s, depth + 1) for s in sizes]
                if k == 'O':
                    e = ('O', draw(st.sampled_from(list(binary))), ch[0], ch[1])
                elif k[0] == 'M':
                    e = ('M', draw(st.sampled_from(by_args[k])), ch[0], tuple(ch[1:]))
                else:
                    e = ('C', ('V', draw(st.sampled_from(by_args[k]))), tuple(ch))
        for _ in range(4 if wrappers else 0):
            w = draw(wrap)
            if w is None:
                break
            if w == 'U':
                e = ('U', draw(st.sampled_from(list(unary))), e)
            elif w == 'P':
                e = ('P', e)
            elif w == 'M':
                e = ('M', draw(st.sampled_from(by_args[('M', 0)])), e, ())
            elif w == 'C':
                e = ('C', ('V', draw(st.sampled_from(by_args[('C', 1)]))), (e,))
            elif w == 'D':
                e = ('D', e, draw(st.sampled_from(list(fields))))
            elif w == 'A':
                e = ('A', e, draw(st.sampled_from(list(casts))))
        return e

    @st.composite
    def tree(draw):
        return norm(build(draw, draw(st.integers(1, max_leaves)), 0))

    return tree()


def variables(e):
    return sorted({n[1] for n in walk(e) if n[0] == 'V'})
