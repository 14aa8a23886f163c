DS='doctor-syn/src/'; LG='libmgen/src/'
PLANTS=[]
def P(id, property, needs, breaks, edits, **kw):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **kw))

RD = "use doctor_syn::*;\nuse std::convert::TryFrom;\n"
BD = "use doctor_syn::*;\nuse doctor_syn::bdmath::*;\nuse std::str::FromStr;\n"

GENC = '''#!/bin/bash
# Generates functions with libmgen, appends demo.rs to them, compiles with overflow checks and runs the result.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen %s > "$t/gen.rs" || exit 2
cat "$here/demo.rs" >> "$t/gen.rs"
rustc --edition 2021 -A warnings -C overflow-checks=on -o "$t/demo" "$t/gen.rs" || exit 2
timeout 60 "$t/demo"
'''
P('C01-rounded-sums', 'C01', 'operands with more decimals than the digits asked for',
  'eval rounds sums to the digits asked for, though a sum is exact',
  [(DS+'transformation/eval.rs', 'BinOp::Add(_) => Ok(Expression::from(left + right).into()),',
    'BinOp::Add(_) => {\n                    Ok(Expression::from(round(left + right, self.num_digits as i64)).into())\n                }')],
  rs=BD+'''
fn main() {
    let e = Expression::from_str("(0.126 + 0.001) - 0.12").unwrap().eval(2).unwrap();
    let b = BigDecimal::try_from(e).unwrap();
    assert_eq!(b, BigDecimal::from_str("0.007").unwrap());
}
''')
P('C02-pi-digits', 'C02', 'pi to 49 or more digits (and fewer than 100)',
  'two neighbouring digits of the literal pi, the 49th and 50th decimal or so, are exchanged',
  [(DS+'bdmath.rs', '3.141592653589793238462643383279502884197169399375105820974', '3.141592653589793238462643383279502884197169399371505820974'.replace('371505','3751505') if 0 else '3.141592653589793238462643383279502884197169399375150820974')],
  rs=BD+'''
fn main() {
    let machin = atan(one() / bigd(5), 60) * bigd(16) - atan(one() / bigd(239), 60) * bigd(4);
    assert!((pi(50) - machin).abs() < BigDecimal::new(2.into(), 50));
}
''')
P('C03-qnorm-stops-early', 'C03', 'a quantile whose Newton iteration happens to land between the two limits',
  'qnorm stops three digits before the digits asked for',
  [(DS+'bdmath.rs', 'if round(err.abs(), num_digits).is_zero() {', 'if round(err.abs(), num_digits - 3).is_zero() {')],
  rs=BD+'''
fn main() {
    // The quantile inverts the distribution.
    for digits in 20..40 {
        for i in 1..40 {
            let p = bigd(i) / bigd(40);
            let q = qnorm(p.clone(), bigd(3), bigd(2), digits).unwrap();
            let back = pnorm(q, bigd(3), bigd(2), digits);
            assert!((back - &p).abs() < BigDecimal::new(20.into(), digits), "{} to {} digits", p, digits);
        }
    }
}
''')
P('C04-any-pi', 'C04', 'a name with a path that ends in PI',
  'the last segment of a path decides, so that an unknown a::PI has a value',
  [(DS+'transformation/eval.rs', 'if let Some(name) = exprpath.path.get_ident() {', 'if let Some(name) = exprpath.path.segments.last().map(|s| &s.ident) {')],
  rs=BD+'''
fn main() {
    assert!(Expression::from_str("2 * angle::PI").unwrap().eval(20).is_err());
    assert!(Expression::from_str("2 * angle").unwrap().eval(20).is_err());
    assert!(Expression::from_str("2 * PI").unwrap().eval(20).is_ok());
}
''')
P('C05-ties-to-zero', 'C05', 'a value exactly half way between two decimals',
  'decimal rounding takes ties towards zero',
  [(DS+'bdmath.rs', '''    let five = if bigint.is_positive() { 5 } else { -5 };
    let x = BigDecimal::new(bigint, decimal_part_digits);
''', '''    let unit = if bigint.is_positive() { 1 } else { -1 };
    let x = BigDecimal::new(bigint, decimal_part_digits);
'''),
   (DS+'bdmath.rs', '''    (x + BigDecimal::new(BigInt::from_i32(five).unwrap(), round_digits + 1))
        .with_scale(round_digits)
''', '''    let res = x.with_scale(round_digits);
    if (x - &res).abs() > BigDecimal::new(BigInt::from_i32(5).unwrap(), round_digits + 1) {
        res + BigDecimal::new(BigInt::from_i32(unit).unwrap(), round_digits)
    } else {
        res
    }
''')],
  rs=BD+'''
fn main() {
    let b = |s: &str| BigDecimal::from_str(s).unwrap();
    assert_eq!(round(b("1.2345"), 3), b("1.235"));
    assert_eq!(round(b("-1.2346"), 3), b("-1.235"));
    assert_eq!(round(b("-2.5"), 0), b("-3"));
}
''')
P('C06-tiny-values', 'C06', 'a value below 10^-digits, such as a small normal or subnormal float',
  'round_ieee first rounds to the decimal places of the precision, which loses small values',
  [(DS+'bdmath.rs', 'pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {\n',
    'pub fn round_ieee(x: BigDecimal, bits: BigDecimal, num_digits: i64) -> Result<BigDecimal> {\n    let x = round(x, num_digits * 2);\n')],
  rs=BD+'''
fn main() {
    let tiny = bigdf(1.2345e-60);
    assert_eq!(round_ieee(tiny.clone(), bigd(64), 20).unwrap(), tiny);
    assert_eq!(round_ieee(bigdf(0.1), bigd(32), 20).unwrap(), bigdf32(0.1));
}
''')
P('C07-double-rounding', 'C07', 'a literal close to the middle of two f32 values, on the other side of it as an f64',
  'a literal is converted to f32 by way of f64',
  [(DS+'expression.rs', '''    fn try_from(expr: &Expression) -> Result<Self> {
        expr_to::<f32>(&expr.inner)''', '''    fn try_from(expr: &Expression) -> Result<Self> {
        expr_to::<f64>(&expr.inner).map(|x| x as f32)'''),
   (DS+'expression.rs', '''    fn try_from(expr: Expression) -> Result<Self> {
        expr_to::<f32>(&expr.inner)''', '''    fn try_from(expr: Expression) -> Result<Self> {
        expr_to::<f64>(&expr.inner).map(|x| x as f32)''')],
  rs=BD+'''
fn main() {
    let text = "1.000000059604644775390626";
    let f = f32::try_from(Expression::from_str(text).unwrap()).unwrap();
    assert_eq!(f, text.parse::<f32>().unwrap());
    let f = f32::try_from(&Expression::from_str(text).unwrap()).unwrap();
    assert_eq!(f, text.parse::<f32>().unwrap());
}
''')
P('C08-zero-minus', 'C08', 'a literal 0 as the left side of - and a sum on the right',
  '0 - e is written as -e without parentheses',
  [(DS+'expression.rs', '''    fn sub(self, rhs: Self) -> Self::Output {
        sub(self, rhs)''', '''    fn sub(self, rhs: Self) -> Self::Output {
        match self.to_string().as_str() {
            // Nothing to subtract from.
            "0" if !rhs.is_numeric() => {
                let rhs = rhs.as_ref();
                let res: Expr = parse_quote!(-#rhs);
                res.into()
            }
            _ => sub(self, rhs),
        }''')],
  rs=BD+'''
fn main() {
    let e = expr!(0) - expr!(x + 1);
    let v = e.subst(vars!(x = 5)).unwrap().eval(20).unwrap();
    assert_eq!(BigDecimal::try_from(v).unwrap(), bigd(-6));
}
''')
P('C09-last-segment', 'C09', 'a path with the last segment named as a bound variable',
  'subst looks only at the last segment of a path, so a::x is replaced with x',
  [(DS+'transformation/subst.rs', 'let name: Name = exprpath.path.clone().into();',
    'let last = exprpath.path.segments.last().unwrap().clone();\n        let name: Name = syn::Path::from(last).into();')],
  rs=BD+'''
fn main() {
    let e = Expression::from_str("x + a::x * f64::consts::y").unwrap();
    let s = e.subst(vars!(x = 5, y = 6)).unwrap();
    assert_eq!(s, Expression::from_str("5 + a::x * f64::consts::y").unwrap());
}
''')
P('C10-double-negation', 'C10', 'a subtracted product that begins with a negated sum',
  'negating -(a + b) drops the parentheses, which the product needs',
  [(DS+'transformation/tools.rs', '        }) => *expr.clone(),', '        }) => deparen(expr).clone(),')],
  rs=BD+'''
fn main() {
    for text in ["x - -(y + 1) * z", "x - (-(y + 1) - z)", "-(-(x + y))"] {
        let e = Expression::from_str(text).unwrap();
        let x = Expression::from_str(&e.expand().unwrap().to_string()).unwrap();
        let value = |e: Expression| BigDecimal::try_from(e.subst(vars!(x = 5, y = 7, z = 11)).unwrap().eval(20).unwrap()).unwrap();
        assert_eq!(value(e), value(x), "{}", text);
    }
}
''')
P('C11-minus-minus', 'C11', 'an unary minus of an unary minus',
  'paren leaves out the parentheses of a negated negation',
  [(DS+'transformation/paren.rs', 'let expr = parenthesise_op(*expr.clone());\n                make_unary(op, expr)',
    '// A prefix of a prefix is read in one way only.\n                let expr = match *expr {\n                    Expr::Unary(_) => *expr,\n                    _ => parenthesise_op(*expr.clone()),\n                };\n                make_unary(op, expr)')],
  rs=BD+'''
fn main() {
    let e = Expression::from_str("a * - -x").unwrap().paren().unwrap();
    assert_eq!(e, Expression::from_str("a * (-(-x))").unwrap());
}
''')
P('C12-zero-difference', 'C12', 'points of which a divided difference is 0 while a later one is not',
  'the Newton polynomial ends at the first divided difference that is 0',
  [(DS+'polynomial.rs', '''        let k = y.len();
        for i in 0..k {
''', '''        let k = y.len();
        // The rest adds nothing from the first zero on.
        let degree = (1..k).find(|&i| dd[i].is_zero()).unwrap_or(k);
        for i in 0..degree {
''')],
  rs=BD+'''
use doctor_syn::polynomial::Polynomial;
fn main() {
    let x = [bigd(-1), bigd(1), bigd(0), bigd(2)];
    let y = [bigd(1), bigd(1), bigd(0), bigd(4)];
    let p = Polynomial::from_points(&x, &y, 30);
    for i in 0..4 {
        assert!((p.eval(x[i].clone()) - &y[i]).abs() < bigdf(1e-10), "point {}", i);
    }
}
''')
P('C13-zero-coefficient', 'C13', 'an expression of which a coefficient comes out as exactly 0',
  'the Horner form leaves out the step of a coefficient 0, and so the power of x',
  [(DS+'transformation/approx.rs', '''        Parity::Neither => {
            let mul_adds: Vec<TokenStream> = (0..k - 1)
                .rev()
''', '''        Parity::Neither => {
            let mul_adds: Vec<TokenStream> = (0..k - 1)
                .rev().filter(|&i| !terms[i].is_zero())
''')],
  rs='''
use doctor_syn::*;
use doctor_syn::syn::Expr;
use std::convert::TryFrom;
// The value of a Horner form.
fn value(e: &Expr, x: f64) -> f64 {
    match e {
        Expr::MethodCall(c) if c.method == "mul_add" => value(&c.receiver, x).mul_add(value(&c.args[0], x), value(&c.args[1], x)),
        Expr::Paren(p) => value(&p.expr, x),
        Expr::Unary(u) => -value(&u.expr, x),
        Expr::Path(_) => x,
        _ => f64::try_from(Expression::from(e.clone())).unwrap(),
    }
}
fn main() {
    let e = Expression::from_str("(x - 0.5) * (x - 0.5)").unwrap();
    for k in 3..6 {
        for (lo, hi) in [(-1.0, 1.0), (0.0, 1.0), (-2.0, 2.0), (0.0, 2.0)] {
            let a = e.approx(k, lo, hi, name!(x), Parity::Neither, 30).unwrap();
            for i in 0..10 {
                let x = lo + (hi - lo) * i as f64 / 9.0;
                let v = value(a.as_ref(), x);
                assert!((v - (x - 0.5) * (x - 0.5)).abs() < 1e-10, "{} at {}", a, x);
            }
        }
    }
    let e = Expression::from_str("x * (x - 1) * (x + 1)").unwrap();
    for k in 4..7 {
        let a = e.approx(k, -1.0, 1.0, name!(x), Parity::Neither, 30).unwrap();
        let v = value(a.as_ref(), 0.5);
        assert!((v + 0.375).abs() < 1e-10, "{} at 0.5", a);
    }
}
'''.replace('use doctor_syn::*;', 'use doctor_syn::*;\nuse std::str::FromStr;'))
P('C14-integers-by-f64', 'C14', 'an integer of more than 53 bits, close to the middle of two f32 values',
  'integers are converted to f32 by way of f64, so that they are rounded twice',
  [(DS+'transformation/use_number_type.rs', '''            Lit::Int(lit) => {
                let float32: f32 = lit.base10_digits().parse().unwrap();
                let float64: f64 = lit.base10_digits().parse().unwrap();
                let bits32 = float32.to_bits();
                let bits64 = float64.to_bits();
                let e: Expr = match (self.number_type, self.num_bits) {
                    ("decimal", 32) => parse_quote!(#float32),
''', '''            Lit::Int(lit) => {
                let float32: f32 = lit.base10_digits().parse().unwrap();
                let float64: f64 = lit.base10_digits().parse().unwrap();
                let bits32 = float32.to_bits();
                let bits64 = float64.to_bits();
                let e: Expr = match (self.number_type, self.num_bits) {
                    // An integer is a double first.
                    ("decimal", 32) => {
                        let rounded = float64 as f32;
                        parse_quote!(#rounded)
                    }
''')],
  rs=BD+'''
fn main() {
    let n = (1u64 << 60) + (1 << 36) + 1;
    let e = Expression::from_str(&format!("x * {}", n)).unwrap();
    let h = e.use_number_type("decimal", 32).unwrap().to_string();
    let number = h.rsplit(' ').next().unwrap().trim_end_matches("f32");
    assert_eq!(number.parse::<f32>().unwrap(), n as f32, "{}", h);
}
''')
P('C15-turbofish', 'C15', 'a method call with type arguments',
  'every transformation drops the type arguments of method calls',
  [(DS+'visitor.rs', 'turbofish: expr.turbofish.clone(),', 'turbofish: None,')],
  rs=BD+'''
fn main() {
    let e = Expression::from_str("x.cast::<f64>() + 1").unwrap();
    assert_eq!(e.subst(VariableList::new()).unwrap(), e);
    assert_eq!(e.paren().unwrap(), e);
}
''')
P('C16-last-binding', 'C16', 'a variable list that binds a name twice',
  'a name is looked up to its last binding instead of the first',
  [(DS+'variablelist.rs', 'self.inner.iter().find(|(p, _)| p == name)', 'self.inner.iter().rev().find(|(p, _)| p == name)')],
  rs=BD+'''
fn main() {
    let v = vars!(x = 1, y = 2, x = 3);
    assert_eq!(v.find(&name!(x)), Some(expr!(1)));
    assert_eq!(v.find(&name!(z)), None);
}
''')
P('C17-tight-dots', 'C17', 'a nested tuple field, or a string with a dot between spaces, within parentheses',
  'dots are closed up within parentheses, so that t.0.1 becomes t and a float',
  [(DS+'codegen/rust.rs', '''            Delimiter::Parenthesis => {
                text.extend(tt.to_string().chars());''', '''            Delimiter::Parenthesis => {
                text.extend(tt.to_string().replace(" . ", ".").chars());''')],
  rs='''
use doctor_syn::codegen::rust::format_token_stream;
use doctor_syn::proc_macro2::TokenStream;
use std::str::FromStr;
fn main() {
    for text in ["f (x . abs ()) + g (t . 0 . 1)", "f ( \\"a . b\\" )", "let x = (1.0).sin();"] {
        let tokens = TokenStream::from_str(text).unwrap();
        let formatted = format_token_stream(tokens.clone());
        assert_eq!(TokenStream::from_str(&formatted).unwrap().to_string(), tokens.to_string());
    }
}
''')
CSH = '''#!/bin/bash
# Translates demo_in.rs to C and runs it with demo.c.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$here/demo_in.rs" "$t/" && cp "$repo/Cargo.lock" "$t/" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ndoctor-syn = { path = "%s/doctor-syn" }\\n' "$repo" > "$t/Cargo.toml"
cd "$t" && timeout 200 cargo run --offline --quiet > out.c || exit 3
cat "$here/demo.c" >> out.c
gcc -w -O1 -o demo out.c -lm || exit 4
timeout 60 ./demo
'''
CRS = '''
use doctor_syn::codegen::c::*;
fn main() {
    let file = doctor_syn::syn::parse_file(include_str!("../demo_in.rs")).unwrap();
    let options = Options { prefix: "PREFIX".to_string(), float_suffix: "".to_string() };
    println!("{}", to_c(&file, options));
}
'''
P('C18-conditional-addend', 'C18', 'a mul_add whose addend is an if expression',
  'the addend of a mul_add has no parentheses, so that a conditional takes the whole sum as its condition',
  [(DS+'codegen/c.rs', '"(({}\\n) * ({}) + ({}))", args[0]', '"(({}\\n) * ({}) + {})", args[0]')],
  sh=CSH, files={'demo.rs': CRS.replace('PREFIX', 'p_'), 'demo_in.rs': '''
pub fn f(x: f64, y: f64) -> f64 {
    x.mul_add(y, if x > 1.0 { 10.0 } else { 20.0 })
}
''', 'demo.c': '''
int main(void) { return !(p_f(2.0, 3.0) == 16.0 && p_f(1.0, 3.0) == 23.0); }
'''})
P('C19-prefix-once', 'C19', 'a prefix that some called function begins with',
  'a call of a function that happens to begin with the prefix is not prefixed',
  [(DS+'codegen/c.rs', '                format!("{}{}({})", self.options.prefix, expr, args)', '''                if expr.starts_with(self.options.prefix.as_str()) {
                    // Has its prefix already.
                    format!("{}({})", expr, args)
                } else {
                    format!("{}{}({})", self.options.prefix, expr, args)
                }''')],
  sh=CSH, files={'demo.rs': CRS.replace('PREFIX', 'my_'), 'demo_in.rs': '''
pub fn my_half(x: f64) -> f64 { x * 0.5 }
pub fn quarter(x: f64) -> f64 { my_half(my_half(x)) }
''', 'demo.c': '''
int main(void) { return !(my_quarter(8.0) == 2.0 && my_my_half(3.0) == 1.5); }
'''})

SIMDSH = '''#!/bin/bash
# Turns demo_in.rs into methods of vectors and runs them with simd_shim.rs, which works lane by lane.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$here/demo_in.rs" "$t/" && cp "$repo/Cargo.lock" "$t/" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ndoctor-syn = { path = "%s/doctor-syn" }\\n' "$repo" > "$t/Cargo.toml"
cd "$t" && timeout 200 cargo run --offline --quiet > methods.txt || exit 3
{ cat "$here/demo_main.rs" "$here/simd_shim.rs"; echo 'mod m {'; cat methods.txt; echo '}'; } > out.rs
rustc --edition 2021 -A warnings -o demo out.rs || exit 4
timeout 60 ./demo
'''
SIMDRS = '''
use doctor_syn::codegen::portable_simd::*;
use doctor_syn::quote::ToTokens;
fn main() {
    let file = doctor_syn::syn::parse_file(include_str!("../demo_in.rs")).unwrap();
    println!("{}", to_simd(&file, Options { num_bits: 32 }).into_token_stream());
}
'''
MAIN = '''
use simd::Simd;
pub trait StdLibm: Sized { type IntType; type UintType; fn f(self, y: Self) -> Self; }
fn main() {
    let x = Simd::<f32, 3>([4.0, 2.0, 3.0]);
    let y = Simd::<f32, 3>([4.0, 3.0, 2.0]);
    assert_eq!(x.f(y).0, [%s]);
}
'''
SHIM = open('/verif/lib/simd_shim.rs').read()
P('C20-ge-lanes', 'C20', 'lanes in which both sides of >= are equal',
  '>= compares lanes with >',
  [(DS+'codegen/portable_simd.rs', 'Ge(_) => Some("lanes_ge"),', 'Ge(_) => Some("lanes_gt"),')],
  sh=SIMDSH, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { if x >= y { x + 1.0 } else { y } }
''', 'demo_main.rs': MAIN % '5.0, 3.0, 4.0'})
P('C21-asinh-alone', 'C21', 'asinh asked for without anything else that brings ln along',
  'asinh does not list ln as a dependency',
  [(LG+'functions.rs', '''        name: "asinh",
        deps: &["fty", "ln"],''', '''        name: "asinh",
        deps: &["fty", "log2"],''')],
  gen=('-f asinh', 'fn main() { assert!((asinh(1.0) - 1.0f64.asinh()).abs() < 1e-12); }\n'))
P('C22-order-of-names', 'C22', 'two selections with the same names in a different order',
  'items are sorted by their number of dependencies, and otherwise left in the order they were found',
  [(LG+'functions.rs', 'res.sort_by(|a, b| (*a as *const Function as usize).cmp(&(*b as *const Function as usize)));',
    'res.sort_by_key(|f| f.deps.len());')],
  sh='''
#!/bin/bash
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f sin,exp,log10,acosh > "$t/a" || exit 2
target/debug/libmgen -f acosh,log10,sin,exp > "$t/b" || exit 2
cmp "$t/a" "$t/b"
''')
P('C23-hex-digits', 'C23', 'a coefficient or constant whose nearest float needs more than 20 digits to tell',
  'hex output is computed to 20 digits in 64 bits too',
  [(LG+'config.rs', '    pub fn num_digits(&self) -> i64 {\n        if self.num_bits() == 32 {', '    pub fn num_digits(&self) -> i64 {\n        if self.num_bits() == 32 || self.number_type() == "hex" {')],
  sh='''
#!/bin/bash
# The same function with decimal and hex literals.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
for n in decimal hex; do
  target/debug/libmgen -f all --number-type $n > "$t/$n.rs" || exit 2
  cat "$here/demo.rs" >> "$t/$n.rs"
  rustc --edition 2021 -A warnings -O -o "$t/$n" "$t/$n.rs" || exit 2
  "$t/$n" > "$t/$n.txt" || exit 2
done
cmp "$t/decimal.txt" "$t/hex.txt"
''', files={'demo.rs': '''

fn main() {
    for i in 1..2000 {
        let x = i as f64 / 2001.0;
        for y in [sin(x * 3.0), cos(x * 3.0), tan(x), asin(x), acos(x), atan(x * 4.0), exp2(x), exp(x), log2(x), ln(x), atan2(x, 1.0 - x), exp_m1(x), qnorm(x, 0.0, 1.0)] {
            println!("{:x}", y.to_bits());
        }
    }
}
'''})
P('C24-tan-below', 'C24', 'an argument of tan below -pi/2',
  'tan reduces its argument with a conversion to an integer, which rounds towards zero',
  [(LG+'trig.rs', '''            let x : fty = scaled - round(scaled);
            let recip''', '''            // The nearest multiple of pi.
            let x : fty = scaled - (scaled + 0.5) as ity as fty;
            let recip''')],
  gen=('-f tan', '''
fn main() {
    for i in -4000..4001 {
        let x = i as f64 / 777.0;
        let t = x.tan();
        assert!((tan(x) - t).abs() < (8.0 + 4.0 * x.abs()) * (1.0 + t * t) * f64::EPSILON, "tan({}) = {}", x, tan(x));
    }
}
'''))
P('C25-acos-terms', 'C25', 'acos in 64 bits, which no stable test covers',
  'the polynomial of acos has too few terms in 64 bits',
  [(LG+'functions.rs', 'num_terms: [16, 34],', 'num_terms: [16, 28],')],
  gen=('-f acos', '''
fn main() {
    for i in -999..1000 {
        let x = i as f64 / 1000.0;
        assert!((acos(x) - x.acos()).abs() < 40.0 * f64::EPSILON, "acos({}) = {}", x, acos(x));
    }
}
'''))
P('C26-exp2-floor', 'C26', 'results within a factor two of the smallest normal number, in 64 bits',
  'exp2 is 0 from -1021.5 down instead of -1023.5',
  [(LG+'auxfuncs.rs', 'const EXP2_MIN: fty = -1023.0f64;', 'const EXP2_MIN: fty = -1021.0f64;')],
  gen=('-f exp2', '''
fn main() {
    assert!(exp2(-1021.75) > 0.0);
    assert!(exp2(-1021.25) > 0.0);
    assert_eq!(exp2(-1100.0), 0.0);
}
'''))
P('C27-log2-terms', 'C27', 'log2 in 64 bits, which no stable test covers',
  'the polynomial of log2 has too few terms in 64 bits',
  [(LG+'functions.rs', 'num_terms: [10, 20],', 'num_terms: [10, 17],')],
  gen=('-f log10', '''
fn main() {
    for i in 1..4000 {
        let x = i as f64 / 1000.0;
        assert!((log10(x) - x.log10()).abs() < 4.0 * f64::EPSILON * (1.0 + x.log10().abs()), "log10({}) = {}", x, log10(x));
    }
}
'''))
P('C28-tiny-powers', 'C28', 'a power below 2^-64, far from the end of the range',
  'powf counts small powers as 0',
  [(LG+'log_exp.rs', '            exp2(log2(arg) * y)\n', '            let e: fty = log2(arg) * y;\n            if e < -64.0 { 0.0 } else { exp2(e) }\n')],
  gen=('-f powi', '''
fn main() {
    assert!((powi(-2.0, 3) + 8.0).abs() < 1e-12);
    assert!((powf(10.0, -18.5) / 10.0_f64.powf(-18.5) - 1.0).abs() < 1e-10);
    assert!((powf(10.0, -25.5) / 10.0_f64.powf(-25.5) - 1.0).abs() < 1e-10);
}
'''))
P('C29-sinh-large', 'C29', 'sinh of 8 to 18 in 64 bits',
  'sinh leaves the second term out where it matters still in 64 bits',
  [(LG+'hyperbolic.rs', '            exp2(a) - exp2(b)', '            // The other one is below the precision.\n            if x > 9.0 { exp2(a) } else { exp2(a) - exp2(b) }')],
  gen=('-f sinh', '''
fn main() {
    for i in -300..300 {
        let x = i as f64 / 10.0;
        assert!((sinh(x) - x.sinh()).abs() <= 1e-14 * (1.0 + x.abs()) * x.sinh().abs().max(1.0), "sinh({}) = {}", x, sinh(x));
    }
}
'''))
P('C30-recip-step', 'C30', 'a number whose first estimate of the reciprocal is among the worst',
  'one Newton step of recip is wasted on its first estimate',
  [(LG+'recip_sqrt.rs', '            let r3: fty = r2 * (2.0 - x * r2);\n', '            let r3: fty = r1 * (2.0 - x * r1);\n')],
  gen=('-f recip', '''
fn main() {
    for i in 1..5000 {
        let x = i as f64 / 777.0;
        assert!((recip(x) * x - 1.0).abs() < 3.0 * f64::EPSILON, "recip({})", x);
    }
}
'''))
P('C31-dnorm-scale', 'C31', 'a deviation other than 1',
  'the density is not divided by the deviation',
  [(LG+'stats_norm.rs', '            rsigma * SQRT_RECIP_2PI * exp2(e)', '            SQRT_RECIP_2PI * exp2(e)')],
  gen=('-f dnorm', '''
fn main() {
    assert!((dnorm(0.0, 0.0, 1.0) - 0.3989422804014327).abs() < 1e-15);
    assert!((dnorm(1.0, 1.0, 2.0) - 0.19947114020071635).abs() < 1e-15);
}
'''))
P('C32-rnorm-index', 'C32', 'an index of 2^32 or more',
  'rnorm takes the index modulo 2^32',
  [(LG+'stats_norm.rs', 'let x: fty = runif(index, MIN, MAX);', 'let x: fty = runif(index & 0xffff_ffff, MIN, MAX);')],
  gen=('-f rnorm,runif,qnorm', '''
fn main() {
    for i in [0, 1, 7, 0xffff_ffff, 0x1_0000_0000, 0x3_0000_0001, 1 << 50] {
        let x = qnorm(runif(i, 0.000001, 1.0 - 0.000001), 0.0, 1.0);
        assert!((rnorm(i, 0.0, 1.0) - x).abs() < 1e-9, "index {}", i);
    }
}
'''))
P('C33-acosh-one', 'C33', 'the argument 1 exactly',
  'acosh(1) is NaN',
  [(LG+'hyperbolic.rs', 'if x < 1.0 { NAN }', 'if x <= 1.0 { NAN }')],
  gen=('-f acosh', '''
fn main() {
    assert!(acosh(1.0).abs() < 1e-15);
    assert!(acosh(0.99).is_nan());
}
'''))
P('C34-pi-by-8', 'C34', 'the last bit of a constant',
  'PI_BY_8 is computed to 16 digits, which is not the nearest float',
  [(LG+'auxfuncs.rs', 'expr!(PI/8).eval(config.num_digits())', 'expr!(PI/8).eval(16)')],
  gen=('-f PI_BY_8', 'fn main() { assert_eq!(PI_BY_8.to_bits(), std::f64::consts::FRAC_PI_8.to_bits()); }\n'))
P('C35-double-arguments', 'C35', 'a table of a 32 bit test',
  'the arguments of 32 bit tables are doubles, so that the references are those of other floats',
  [(LG+'test.rs', '(#tmin))).round_ieee(#bits));', '(#tmin))).round_ieee(64));')],
  sh='''
#!/bin/bash
# The rows of a table are (x, y, e): at the float x the true value is y + e.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f exp2 --num-bits 32 --generate-tests > "$t/gen.rs" || exit 2
python3 - "$t/gen.rs" <<'PY'
import re, struct, sys
from decimal import Decimal as D, getcontext
getcontext().prec = 60
text = open(sys.argv[1]).read()
num = r'(-?[0-9.]+)'
rows = re.findall(r'\\(\\s*%s\\s*,\\s*%s\\s*,\\s*%s\\s*\\)\\s*,' % (num, num, num), re.sub(r'-\\s+(?=[0-9])', '-', text))
assert len(rows) > 100, len(rows)
bad = 0
for x, y, e in rows:
    x, y = (struct.unpack('f', struct.pack('f', float(v)))[0] for v in (x, y))
    if abs(D(y) + D(e) - D(2) ** D(x)) > D('1e-15') * D(2) ** D(x):
        bad += 1
print(bad, 'of', len(rows), 'are wrong')
sys.exit(1 if bad else 0)
PY
''')
P('C37-lt-lanes', 'C37', 'an argument equal to the bound of a comparison, such as log2 of infinity',
  '< compares lanes with <=',
  [(DS+'codegen/portable_simd.rs', 'Lt(_) => Some("lanes_lt"),', 'Lt(_) => Some("lanes_le"),')],
  sh=SIMDSH, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { if x < y { x + 1.0 } else { y } }
''', 'demo_main.rs': MAIN % '4.0, 3.0, 2.0'})
P('C38-stale-tail', 'C38', 'an output file that exists and is longer than the new text',
  'the output file is not truncated',
  [(LG+'main.rs', '        std::fs::write(path, text.as_bytes()).unwrap();', '''        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path).unwrap();
        file.write_all(text.as_bytes()).unwrap();''')],
  sh='''
#!/bin/bash
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f sin -o "$t/a" || exit 2
target/debug/libmgen -f PI -o "$t/a" || exit 2
target/debug/libmgen -f PI > "$t/b" || exit 2
cmp "$t/a" "$t/b"
''')
P('C39-round-narrow', 'C39', 'a number above 2^31, in 64 bits',
  'round goes through 32 bit integers',
  [(LG+'auxfuncs.rs', '(x + half.copysign(x)) as ity as fty', '(x + half.copysign(x)) as i32 as fty')],
  gen=('-f round', '''
fn main() {
    assert_eq!(round(2.5), 3.0);
    assert_eq!(round(-12345678901.75), -12345678902.0);
}
'''))
P('C40-round-half-up', 'C40', 'a negative number half way between two whole ones',
  'round takes ties up instead of away from zero, so it is not odd',
  [(LG+'auxfuncs.rs', '(x + half.copysign(x)) as ity as fty', '(x + half).floor()')],
  gen=('-f round', '''
fn main() {
    assert_eq!(round(2.5), 3.0);
    assert_eq!(round(-2.25), -2.0);
    assert_eq!(round(-2.5), -3.0);
}
'''))
P('C01-equal-rounded', 'C01', 'operands of == that differ only beyond the digits asked for',
  'values that agree to the digits asked for count as equal',
  [(DS+'transformation/eval.rs', 'Expression::from(left == right)', 'Expression::from(round(left - right, self.num_digits).is_zero())')],
  rs=BD+'''
fn main() {
    for (text, digits, want) in [("1.0001 == 1.0002", 3, "false"), ("1.5 == 1.50", 3, "true"), ("0.1 + 0.2 == 0.3", 20, "true"), ("1 == 2", 0, "false"), ("2.25 == 2.5", 0, "false")] {
        assert_eq!(Expression::from_str(text).unwrap().eval(digits).unwrap().to_string(), want, "{}", text);
    }
}
''')
P('C03-erf-saturates', 'C03', 'an argument beyond 7 and 23 or more digits',
  'erf stays at its value of 7 beyond 7',
  [(DS+'bdmath.rs', '    two() / sqrt(pi(num_digits), num_digits).unwrap()\n', '    let scale = two() / sqrt(pi(num_digits), num_digits).unwrap();\n    // All but 1 from there on.\n    let x = if x.abs() > bigd(7) { x.signum() * bigd(7) } else { x };\n    scale\n')],
  rs=BD+'''
fn main() {
    // 1 - erf(7.5) is about 2.8e-26.
    let c = one() - erf(bigdf(7.5), 40);
    assert!(c > BigDecimal::from_str("2.7e-26").unwrap() && c < BigDecimal::from_str("2.8e-26").unwrap(), "{}", c);
    let c = one() - erf(bigdf(2.0), 40);
    assert!((c - BigDecimal::from_str("0.0046777349810472658379").unwrap()).abs() < BigDecimal::from_str("1e-20").unwrap());
}
''')
P('C04-round-arguments', 'C04', 'round called with an argument, which no function of that name has',
  'round ignores its arguments',
  [(DS+'transformation/eval.rs', '("round", x, 0)', '("round", x, _)')],
  rs=BD+'''
fn main() {
    assert!(Expression::from_str("(2.5).round(1)").unwrap().eval(20).is_err());
    assert!(Expression::from_str("(2.5).round(1, 2)").unwrap().eval(20).is_err());
    assert!(Expression::from_str("(2.5).round()").unwrap().eval(20).is_ok());
}
''')
P('C08-any-literal', 'C08', 'two literals that are not numbers, or one of each kind',
  'operators take literals of any kind for numbers',
  [(DS+'expression.rs', 'if lhs.is_numeric() && rhs.is_numeric() {', 'if lhs.is_lit() && rhs.is_lit() {')],
  rs=BD+'''
fn main() {
    let e = |t: &str| Expression::from_str(t).unwrap();
    assert!((e("true") + e("2")).to_string().contains("true"));
    assert_eq!((e("3") + e("2")).to_string(), "5");
}
''')
P('C12-differences-cut', 'C12', 'a coefficient with more digits than asked for less two',
  'divided differences are rounded to two digits fewer than asked for',
  [(DS+'polynomial.rs', 'y[j + 1] = round((&y[j + 1] - &y[j]) / (&x[j + 1] - &x[j - i]), num_digits);', 'y[j + 1] = round((&y[j + 1] - &y[j]) / (&x[j + 1] - &x[j - i]), num_digits - 2);')],
  rs=BD+'''
use doctor_syn::polynomial::Polynomial;
fn main() {
    let p = Polynomial::from_points(&[zero(), bigd(3)], &[one(), two()], 20);
    assert!((p.terms()[1].clone() - one() / bigd(3)).abs() < BigDecimal::new(1.into(), 20));
}
''')
P('C13-single-end', 'C13', 'an interval whose lower end is not a single precision number',
  'the lower end of the interval is taken as a single precision number',
  [(DS+'transformation/approx.rs', 'let xmin = bigdf(xmin);', 'let xmin = bigdf32(xmin as f32);')],
  rs=BD+'''
fn main() {
    for a in [0.5, 0.1] {
        let p = Expression::from_str("x.exp()").unwrap().approx(2, a, 2.0, name!(x), Parity::Neither, 40).unwrap();
        // The ends of the interval are points of the interpolation.
        let text = p.to_string();
        let n: Vec<BigDecimal> = text
            .replace("- ", "-")
            .split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-'))
            .filter(|t| t.chars().any(|c| c.is_ascii_digit()))
            .map(|t| BigDecimal::from_str(t).unwrap())
            .collect();
        assert_eq!(n.len(), 2, "{}", text);
        let y = &n[0] * bigdf(a) + &n[1];
        assert!((y - exp(bigdf(a), 40)).abs() < BigDecimal::new(1.into(), 30), "at {}: {}", a, text);
    }
}
''')
P('C35-limit-doubled', 'C35', 'a 64 bit function whose error is between one and two limits',
  'the limit of 64 bit tests is twice what it says',
  [(LG+'test.rs', 'bits64 * 2.0_f64.powi(-53)', 'bits64 * 2.0_f64.powi(-52)')],
  sh=r'''
#!/bin/bash
# A test fails when the function is wrong by one and a half times its limit, 0.8 of which are added here.
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f sin --generate-tests > "$t/gen.rs" || exit 2
sed 's/|x| *sin *(x *)/|x| 0.8 * 9.0 * 2.0f64.powi(-53) + sin(x)/; s/| *x *| *sin *( *x *)/|x| 0.8 * 9.0 * 2.0f64.powi(-53) + sin(x)/' "$t/gen.rs" > "$t/bad.rs"
cmp -s "$t/gen.rs" "$t/bad.rs" && exit 2
for n in gen bad; do
  rustc --edition 2021 -A warnings -O --test -o "$t/$n" "$t/$n.rs" || exit 2
done
"$t/gen" test_sin --exact || exit 3
! "$t/bad" test_sin --exact
''')
P('C35-half-strict', 'C35', 'a function whose error is between one and two limits',
  'tests accept twice the limit',
  [(LG+'auxfuncs.rs', 'assert ! (max_ref_error <= limit);', 'assert ! (max_ref_error < limit * 2.0);')],
  sh=r'''
#!/bin/bash
# A test fails when the function is wrong by 1.5 times its limit.
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f sin --num-bits 32 --generate-tests > "$t/gen.rs" || exit 2
sed 's/| *x *| *sin *( *x *)/|x| 1.5 * 9.0 * 2.0f32.powi(-23) + sin(x)/' "$t/gen.rs" > "$t/bad.rs"
cmp -s "$t/gen.rs" "$t/bad.rs" && exit 2
for n in gen bad; do
  rustc --edition 2021 -A warnings -O --test -o "$t/$n" "$t/$n.rs" || exit 2
done
"$t/gen" test_sin --exact || exit 3
! "$t/bad" test_sin --exact
''')
P('C35-plot-columns', 'C35', 'plots: a row in which the function is not exact',
  'the columns yref and ycalc of the csv files are exchanged',
  [(LG+'auxfuncs.rs', 'writeln!(csv, "{}, {}, {}, {}", x, yref, ycalc, eref).unwrap();', 'writeln!(csv, "{}, {}, {}, {}", x, ycalc, yref, eref).unwrap();')],
  sh=r'''
#!/bin/bash
# The third column holds what the function gives.
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f exp2 --generate-tests --generate-plots > "$t/gen.rs" || exit 2
cp "$t/gen.rs" "$t/val.rs"
cat >> "$t/val.rs" <<'RS'

fn main() { for l in std::io::stdin().lines() { println!("{}", exp2(l.unwrap().trim().parse::<f64>().unwrap())); } }
RS
rustc --edition 2021 -A warnings -O --test -o "$t/gen" "$t/gen.rs" || exit 2
rustc --edition 2021 -A warnings -O -o "$t/val" "$t/val.rs" || exit 2
cd "$t" && ./gen test_exp2_2 --exact > /dev/null || exit 3
tail -n +2 test_exp2_2.csv | cut -d, -f1 | ./val > want.txt
tail -n +2 test_exp2_2.csv | cut -d, -f3 | tr -d ' ' > got.txt
python3 - <<'PY'
a, b = ([float(l) for l in open(n)] for n in ('want.txt', 'got.txt'))
assert len(a) == len(b) == 237
raise SystemExit(a != b)
PY
''')
P('C36-single-mul-add', 'C36', 'C of 64 bits',
  'mul_add is written as fmaf, which is single precision, for 64 bits too',
  [(DS+'codegen/c.rs', '"mul_add" => format!("(({}\\n) * ({}) + ({}))", args[0], args[1], args[2]),', '"mul_add" => format!("fmaf({}, {}, {})", args[0], args[1], args[2]),')],
  sh=r'''
#!/bin/bash
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen -f sin --language c > "$t/m.c" || exit 2
cat >> "$t/m.c" <<'C'

#include <stdio.h>
#include <math.h>
int main(void) {
  for (int i = -100; i <= 100; i++) {
    double x = i / 50.0;
    if (!(fabs(ds64_sin(x) - sin(x)) < 1e-13)) { printf("sin(%g) is %.17g\n", x, ds64_sin(x)); return 1; }
  }
  return 0;
}
C
gcc -w -O1 -o "$t/m" "$t/m.c" -lm || exit 2
"$t/m"
''')
P('C18-remainder', 'C18', 'the remainder of integers',
  '% is written as /',
  [(DS+'codegen/c.rs', 'BinOp::Rem(_binding_0) => {\n                "%"', 'BinOp::Rem(_binding_0) => {\n                "/"')],
  sh=CSH, files={'demo.rs': CRS.replace('PREFIX', 'p_'), 'demo_in.rs': '''
pub fn f(x: i32, y: i32) -> i32 { x % 7 + y }
''', 'demo.c': '''
int main(void) { return !(p_f(23, 100) == 102 && p_f(7, 1) == 1); }
'''})
P('C20-select-order', 'C20', 'any conditional',
  'the branches of a conditional are exchanged in unequal lanes only: != compares with ==',
  [(DS+'codegen/portable_simd.rs', 'Ne(_) => Some("lanes_ne"),', 'Ne(_) => Some("lanes_eq"),')],
  sh=SIMDSH, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { if x != y { x + 1.0 } else { y } }
''', 'demo_main.rs': MAIN % '4.0, 3.0, 4.0'})
P('C22-exclusions-by-part', 'C22', 'an exclusion whose name has an underscore',
  'exclusions are split at underscores too, so that PI_BY_2 excludes PI',
  [(LG+'main.rs', ".exclude\n        .split(',')", ".exclude\n        .split(&[',', '_'][..])")],
  sh='''
#!/bin/bash
target/debug/libmgen -f PI,PI_BY_2 -x PI_BY_2 > /dev/null || exit 2
target/debug/libmgen -f PI,PI_BY_2 -x PI_BY_2 | grep -q 'const PI *:' || exit 1
! target/debug/libmgen -f PI,PI_BY_2 -x PI_BY_2 | grep -q 'PI_BY_2'
''')

P('C41-unsigned-exponent', 'C41', 'a build with overflow checks and an argument below 1',
  'log2 takes the bits of 1 from the bits of its argument before the shift: the same in release builds, a subtraction overflow below 1 in others',
  [(LG+'log_exp.rs', '(arg_bits as ity >> LOG2_SHIFT) - LOG2_OFFSET;', '(arg_bits - ONE_BITS) as ity >> LOG2_SHIFT;')],
  sh=GENC % '-f log2', files={'demo.rs': """
fn main() {
    assert_eq!(log2(4.0), 2.0);
    assert_eq!(log2(0.25), -2.0);
}
"""})
P('C42-small-ints', 'C42', 'a cast to a small integer type of a number that does not fit',
  'i16 and i8 are written as int, so casts to them keep what they should cut off',
  [(DS+'codegen/c.rs', '"i32" => "int".to_string(),', '"i8" | "i16" | "i32" => "int".to_string(),')],
  sh=CSH.replace('|| exit 4', '|| exit 0').replace('gcc -w', 'gcc'), files={'demo.rs': CRS.replace('PREFIX', 'p_'), 'demo_in.rs': """
pub fn f(x: i32) -> i32 { (x as i16 as i32) + 1 }
""", 'demo.c': """
int main(void) { return !(p_f(41) == 42 && p_f(65536) == 1); }
"""})
P('C42-tuple-comma', 'C42', 'a comparison of tuples',
  'tuples are written as parenthesised lists, which C takes for comma expressions',
  [(DS+'codegen/c.rs', """        self.push("<<expr_tuple>>".to_string());
        //visit_expr_tuple(self, node);""", """        let mut elems = Vec::new();
        for el in &node.elems {
            self.visit_expr(el);
            elems.push(self.tos());
        }
        ret!(self, "({})", elems.join(", "));""")],
  sh=CSH.replace('|| exit 4', '2> /dev/null || exit 0').replace('gcc -w', 'gcc'), files={'demo.rs': CRS.replace('PREFIX', 'p_'), 'demo_in.rs': """
pub fn f(x: f64, y: f64) -> f64 { if (x, 1.0) < (y, 0.0) { 1.0 } else { 0.0 } }
""", 'demo.c': """
int main(void) { return !(p_f(1.0, 2.0) == 1.0 && p_f(2.0, 1.0) == 0.0 && p_f(1.0, 1.0) == 0.0); }
"""})

P('C42-references-by-value', 'C42', 'a variable changed through a reference',
  'references are written as the value and dereferences as nothing, so what is changed through a reference is a copy',
  [(DS+'codegen/c.rs', """        self.push("<<expr_reference>>".to_string());
        //visit_expr_reference(self, node);""", """        self.visit_expr(&*node.expr);"""),
   (DS+'codegen/c.rs', """UnOp::Deref(_) => {
                "*\"""", """UnOp::Deref(_) => {
                "\"""")],
  sh=CSH.replace('|| exit 4', '2> /dev/null || exit 0').replace('gcc -w', 'gcc'), files={'demo.rs': CRS.replace('PREFIX', 'p_'), 'demo_in.rs': """
pub fn f(x: f64) -> f64 { let mut a: f64 = x; let r = &mut a; *r = 2.0; a }
""", 'demo.c': """
int main(void) { return p_f(1.0) != 2.0; }
"""})

SIMD43 = SIMDSH.replace('|| exit 3', '2> /dev/null || exit 0').replace('|| exit 4', '2> /dev/null || exit 0')
P('C43-all-widths', 'C43', 'a cast to an integer type of another width',
  'casts to integer types of every width go to the integers of the lanes, so nothing is cut off',
  [(DS+'codegen/portable_simd.rs', '        _ => cast.clone().into()', """        t => if t.starts_with('i') {
            parse_quote!{ (#expr).cast::<#ity>() }
        } else {
            cast.clone().into()
        }""")],
  sh=SIMD43, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { (x * 100.0) as i8 as fty + y }
''', 'demo_main.rs': MAIN % '131.0, 130.0, 129.0'})
P('C43-literal-type', 'C43', 'a float literal of the other width, cast',
  'float literals lose their suffix, so that 0.1f32 is 0.1 in files of 64 bits',
  [(DS+'codegen/portable_simd.rs', 'parse_quote! { Self::splat(#f) }\n        }\n    }\n}\n\nfn convert_lit_int',
    'let digits = syn::LitFloat::new(f.base10_digits(), f.span());\n            parse_quote! { Self::splat(#digits) }\n        }\n    }\n}\n\nfn convert_lit_int')],
  sh=SIMD43, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS.replace('num_bits: 32', 'num_bits: 64'), 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { x * (0.1f32 as f64) + y }
''', 'demo_main.rs': (MAIN % '4.0 * 0.1f32 as f64 + 4.0, 2.0 * 0.1f32 as f64 + 3.0, 3.0 * 0.1f32 as f64 + 2.0').replace('f32, 3', 'f64, 3')})
P('C43-last-statement', 'C43', 'a branch of several statements, the first of which has an effect',
  'branches are what their last expression is, whatever comes before it',
  [(DS+'codegen/portable_simd.rs', """    if block.stmts.len() == 1 {
        if let syn::Stmt::Expr(expr) = &block.stmts[0] {
            return expr;
        }
    }
    unreachable!();""", """    if let Some(syn::Stmt::Expr(expr)) = block.stmts.last() {
        return expr;
    }
    unreachable!();""")],
  sh=SIMD43, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn f(x: fty, y: fty) -> fty { let mut a: fty = 1.0; let b: fty = if x < y { a += 1.0; x } else { y }; a * b }
''', 'demo_main.rs': MAIN % '4.0, 4.0, 2.0'})
P('C43-qualified-calls', 'C43', 'a call with a path whose last name is a method too',
  'calls with a path become methods by the last name of the path',
  [(DS+'codegen/portable_simd.rs', """        _ => call.clone().into()
""", """        Expr::Path(path) if path.path.segments[0].ident != "Self" => {
            let func = &path.path.segments.last().unwrap().ident;
            let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
            parse_quote! { (#arg0).#func(#rest) }
        }

        _ => call.clone().into(),
""")],
  sh=SIMD43, files={'simd_shim.rs': SHIM, 'demo.rs': SIMDRS, 'demo_in.rs': '''
fn g(x: fty) -> fty { x + 1.0 }
mod inner { pub fn g(x: f32) -> f32 { x * 2.0 } }
fn f(x: fty, y: fty) -> fty { g(x) + inner::g(y) }
''', 'demo_main.rs': (MAIN % '13.0, 9.0, 8.0').replace('fn f(self, y: Self) -> Self;', 'fn f(self, y: Self) -> Self; fn g(self) -> Self;')})
P('C44-sequential-bindings', 'C44', 'a binding whose value mentions a name bound before it in the same list',
  'vars! puts the bindings that come first into those that follow',
  [(DS+'variablelist.rs', "        $crate::VariableList::from(::std::vec![$(($crate::name!($i), $crate::expr!($e))),*])", """        {
            let mut list = $crate::VariableList::new();
            $(
                let value = $crate::expr!($e).subst(list.clone()).unwrap();
                list.add_var($crate::name!($i), value);
            )*
            list
        }""")],
  rs='''
fn main() {
    let v = doctor_syn::vars!(x = y, y = x);
    assert_eq!(v.to_string(), "vars!(x = y, y = x)");
    assert_eq!(doctor_syn::expr!(x - y).subst(v).unwrap().to_string(), "y - x");
}
''')
P('C44-outer-parentheses', 'C44', 'an expression that is parenthesised as a whole',
  'expr! takes the parentheses around the whole expression off',
  [(DS+'expression.rs', "        $crate::Expression::from(synexpr)\n", """        $crate::Expression::from(match synexpr {
            $crate::syn::Expr::Paren(paren) => *paren.expr,
            synexpr => synexpr,
        })
""")],
  rs='''
fn main() {
    use doctor_syn::*;
    assert_eq!(expr!((x + 1)), "(x + 1)".parse::<Expression>().unwrap());
    assert_eq!(expr!(x + 1), "x + 1".parse::<Expression>().unwrap());
}
''')
P('C45-negate-parentheses', 'C45', 'a difference with an operator of another kind in parentheses, expanded, printed and read back',
  'the negation of a parenthesis is the negation of what is in it, right in memory and wrong as text',
  [(DS+'transformation/tools.rs', '''            op: UnOp::Neg(syn::token::Sub(Span::call_site())),
            expr: Box::new(expr.clone()),
''', '''            op: UnOp::Neg(syn::token::Sub(Span::call_site())),
            expr: Box::new(deparen(expr).clone()),
''')],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "x - (y << z)".parse().unwrap();
    let e = e.expand().unwrap();
    let read: Expression = e.to_string().parse().unwrap();
    // The shift comes first, whichever way the text is written.
    let v = (read + "1".parse().unwrap()).subst(vars!(x = 10)).unwrap().paren().unwrap().to_string().replace(' ', "");
    assert!(v.contains("(y<<z)"), "{}", v);
    assert!(!v.contains("10-y"), "{}", v);
}
''')
P('C45-collect-products', 'C45', 'a product in parentheses with a method, after collect_terms, printed and read back',
  'collect_terms leaves out the parentheses of products, right in memory and wrong as text',
  [(DS+'transformation/collect.rs', "impl Visitor for Collect {}\n", """impl Visitor for Collect {
    // Products need no parentheses.
    fn visit_paren(&self, exprparen: &syn::ExprParen) -> crate::error::Result<syn::Expr> {
        let mut paren = exprparen.clone();
        *paren.expr = self.visit_expr(&exprparen.expr)?;
        Ok(match *paren.expr {
            syn::Expr::Binary(syn::ExprBinary { op: syn::BinOp::Mul(_), .. }) => *paren.expr,
            _ => paren.into(),
        })
    }
}
""")],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "x + 1 + (y * z).powi(2)".parse().unwrap();
    let read: Expression = e.collect_terms(name!(x)).unwrap().to_string().parse().unwrap();
    let v = read.subst(vars!(x = 12, y = 3, z = 2)).unwrap().eval(20).unwrap();
    let v: f64 = v.to_string().parse().unwrap();
    assert!((v - 49.0).abs() < 1e-9);
}
''')
P('C46-arguments-first', 'C46', 'a method call with no value both on the left of the dot and in its arguments',
  'arguments are evaluated before the receiver, and the error names them',
  [(DS+'transformation/eval.rs', """        let receiver: Expression = self.visit_expr(&expr.receiver)?.into();
        let args: Vec<Expression> = expr
            .args
            .iter()
            .map(|a| -> Result<Expression> { Ok(self.visit_expr(a)?.into()) })
            .collect::<Result<Vec<_>>>()?;
""", """        let args: Vec<Expression> = expr
            .args
            .iter()
            .map(|a| -> Result<Expression> { Ok(self.visit_expr(a)?.into()) })
            .collect::<Result<Vec<_>>>()?;
        let receiver: Expression = self.visit_expr(&expr.receiver)?.into();
""")],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "1 + first.powf(second)".parse().unwrap();
    let text = e.eval(20).unwrap_err().to_string();
    assert!(text.contains("first") && !text.contains("second"), "{}", text);
}
''')
P('C46-receiver-named', 'C46', 'a method that eval does not know, or with a wrong number of arguments',
  'the error of an unknown method names what it is called on',
  [(DS+'transformation/eval.rs', "            _ => Err(eval_err(expr.clone().into())),\n        }\n    }\n\n    fn visit_binary", "            _ => Err(eval_err(*expr.receiver.clone())),\n        }\n    }\n\n    fn visit_binary")],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "1 + (2 * 3).gamma()".parse().unwrap();
    let text = e.eval(20).unwrap_err().to_string();
    assert!(text.contains("gamma"), "{}", text);
}
''')
P('C47-pi-digits-kept', 'C47', 'an evaluation with PI after one with more digits in the same thread',
  'PI keeps the most digits that were ever asked for in this thread',
  [(DS+'bdmath.rs', "        round(x, num_digits as i64)\n", """        thread_local!(static DIGITS: std::cell::Cell<i64> = std::cell::Cell::new(0));
        // Never fewer digits than before.
        DIGITS.with(|d| {
            d.set(d.get().max(num_digits));
            round(x, d.get())
        })
""")],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "PI * 2".parse().unwrap();
    let p: Expression = "PI".parse().unwrap();
    let before = (e.eval(10).unwrap().to_string(), p.eval(10).unwrap().to_string());
    p.eval(50).unwrap();
    assert_eq!((e.eval(10).unwrap().to_string(), p.eval(10).unwrap().to_string()), before);
}
''')
P('C47-digits-in-static', 'C47', 'evaluations with different numbers of digits at the same time in several threads',
  'the number of digits of products is kept in a static, which concurrent evaluations overwrite',
  [(DS+'transformation/eval.rs', """    fn visit_binary(&self, exprbinary: &ExprBinary) -> Result<Expr> {
        let left: Expression = self.visit_expr(&exprbinary.left)?.into();
""", """    fn visit_binary(&self, exprbinary: &ExprBinary) -> Result<Expr> {
        static DIGITS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
        DIGITS.store(self.num_digits, std::sync::atomic::Ordering::SeqCst);
        let left: Expression = self.visit_expr(&exprbinary.left)?.into();
"""), (DS+'transformation/eval.rs', "                    Ok(Expression::from(round(left * right, self.num_digits as i64)).into())\n",
  "                    let num_digits = DIGITS.load(std::sync::atomic::Ordering::SeqCst);\n                    Ok(Expression::from(round(left * right, num_digits)).into())\n")],
  rs='''
fn main() {
    use doctor_syn::*;
    let one = |n: i64| {
        let e: Expression = "PI * (PI * (PI * (PI * (PI * 0.123456789.exp()))))".parse().unwrap();
        e.eval(n).unwrap().to_string()
    };
    let digits = [5, 20, 40, 60];
    let alone: Vec<String> = digits.iter().map(|n| one(*n)).collect();
    for _ in 0..300 {
        let running: Vec<_> = digits.iter().map(|n| { let n = *n; std::thread::spawn(move || (0..10).map(|_| one(n)).collect::<Vec<_>>()) }).collect();
        for (t, a) in running.into_iter().zip(&alone) {
            for r in t.join().unwrap() {
                assert_eq!(&r, a);
            }
        }
    }
}
''')
REPSH = r'''#!/bin/bash
# Runs the generated test function on the table of demo.rs and compares its report.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen --functions sin --generate-tests > "$t/gen.rs" || exit 2
cat "$here/demo.rs" >> "$t/gen.rs"
rustc --edition 2021 -A warnings -O --test -o "$t/demo" "$t/gen.rs" || exit 2
timeout 60 "$t/demo" demo_table --nocapture --test-threads 1 > "$t/out" 2>&1
grep -F "$(cat "$here/want")" "$t/out"
'''
P('C48-reported-beyond-limit', 'C48', 'a table whose largest error is within the limit',
  'only rows beyond the limit are reported',
  [('libmgen/src/auxfuncs.rs', """                    max_ref_error = eref;
                    bad_ycalc = ycalc;
                    bad_yref = yref;
                    bad_x = x;
                }
""", """                    max_ref_error = eref;
                    if !(eref <= limit) {
                        bad_ycalc = ycalc;
                        bad_yref = yref;
                        bad_x = x;
                    }
                }
""")],
  sh=REPSH, files={'demo.rs': '''
#[test]
fn demo_table() {
    test_function("demo", &[(1.0, 2.0, 0.0), (3.0, 4.0, 0.0), (5.0, 6.0, 0.0)], 1.0, |x| if x == 3.0 { 4.5 } else { x + 1.0 });
}
''', 'want': 'x    =4008000000000000'})
P('C48-nan-row', 'C48', 'a function that is NaN at a row of the table',
  'NaN fails the test but its row is not reported',
  [('libmgen/src/auxfuncs.rs', '''                    bad_ycalc = ycalc;
                    bad_yref = yref;
                    bad_x = x;
                }
''', '''                    if eref <= max_ref_error {
                        bad_ycalc = ycalc;
                        bad_yref = yref;
                        bad_x = x;
                    }
                }
''')],
  sh=REPSH, files={'demo.rs': '''
#[test]
fn demo_table() {
    test_function("demo", &[(1.0, 2.0, 0.0), (3.0, 4.0, 0.0), (5.0, 6.0, 0.0)], 1.0, |x| if x == 3.0 { 0.0 / 0.0 } else { x + 1.0 });
}
''', 'want': 'x    =4008000000000000'})

UBSH = r'''#!/bin/bash
# Generates C with libmgen and runs it in a build that stops at undefined operations.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
target/debug/libmgen --functions %s --language c > "$t/demo.c" || exit 2
cat "$here/demo.c" >> "$t/demo.c"
gcc -w -std=gnu11 -O0 -fsanitize=undefined -fno-sanitize-recover=undefined -o "$t/demo" "$t/demo.c" -lm || exit 4
timeout 60 "$t/demo"
'''
P('C49-integer-scale', 'C49', 'exp2 of 2048 or more, or -2048 or less, in C built on overflow being undefined',
  'the power of two is made in signed integers, which wrap in Rust; the overflow is undefined in C',
  [(LG+'log_exp.rs', '''            let mul: fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);
            let x: fty = arg - r;
            let y: fty''', '''            let mul: fty = fty::from_bits((r as ity).wrapping_mul(EXP2_SCALE as ity).wrapping_add(EXP2_ONE as ity) as uty);
            let x: fty = arg - r;
            let y: fty''')],
  sh=UBSH % 'exp2', files={'demo.c': '''
int main() {
    return !(ds64_exp2(3.0) > 7.999 && ds64_exp2(5000.0) > 1e300 && ds64_exp2(-5000.0) == 0.0);
}
'''})
P('C49-exponent-by-difference', 'C49', 'log2 of a negative number between -1 and 0 in C',
  'the exponent is the shifted difference of two bit patterns, which overflows below zero, undefined in C',
  [(LG+'log_exp.rs', 'let exponent : ity = (arg_bits as ity >> LOG2_SHIFT) - LOG2_OFFSET;',
    'let exponent : ity = (arg_bits as ity).wrapping_add(-(ONE_BITS as ity)) >> LOG2_SHIFT;')],
  sh=UBSH % 'log2', files={'demo.c': '''
int main() {
    fty y = ds64_log2(-0.25);
    return !(ds64_log2(8.0) > 2.999 && y != y);
}
'''})

P('C47-approx-remembered', 'C47', 'two approximations in one process with the same number of terms and different numbers of digits',
  'the cosines of the points are remembered by their number only, so that later approximations get the digits of the first',
  [(DS+'transformation/approx.rs', '''        let x = &a - &c * cos(BigDecimal::from_usize(i).unwrap() * &b, num_digits);
''', '''        thread_local!(static NODES: std::cell::RefCell<std::collections::HashMap<(usize, usize), BigDecimal>> = Default::default());
        let node = NODES.with(|n| {
            let cosine = || cos(BigDecimal::from_usize(i).unwrap() * &b, num_digits);
            n.borrow_mut().entry((i, num_terms)).or_insert_with(cosine).clone()
        });
        let x = &a - &c * node;
''')],
  rs='''
fn main() {
    use doctor_syn::*;
    let one = |n| {
        let e: Expression = "x.exp()".parse().unwrap();
        e.approx(4, 0.0, 1.0, name!(x), Parity::Neither, n).unwrap().to_string()
    };
    let alone = std::thread::spawn(move || one(30)).join().unwrap();
    one(10);
    assert_eq!(one(30), alone);
}
''')
P('C46-operator-left', 'C46', 'an operator on numbers that eval does not know',
  'the error of an unknown operator names its left operand, which has a value',
  [(DS+'transformation/eval.rs', '''                BinOp::Ne(_) => Ok(Expression::from(left != right).into()),
                _ => Err(eval_err(exprbinary.clone().into())),
''', '''                BinOp::Ne(_) => Ok(Expression::from(left != right).into()),
                _ => Err(eval_err(*exprbinary.left.clone())),
''')],
  rs='''
fn main() {
    use doctor_syn::*;
    let e: Expression = "1 + (7 * 2) % 5".parse().unwrap();
    let text = e.eval(20).unwrap_err().to_string();
    assert!(text.contains("%"), "{}", text);
}
''')
P('C48-limit-strict', 'C48', 'a table whose largest error is the limit',
  'a generated test fails if the largest error is the limit',
  [('libmgen/src/auxfuncs.rs', 'assert ! (max_ref_error <= limit);', 'assert ! (max_ref_error < limit);')],
  sh=REPSH.replace('grep -F "$(cat "$here/want")" "$t/out"', 'grep -F "test demo_table ... ok" "$t/out" || grep -E "^ok|1 passed" "$t/out"'), files={'demo.rs': '''
#[test]
fn demo_table() {
    test_function("demo", &[(1.0, 2.0, 0.0), (3.0, 4.0, 0.0), (5.0, 6.0, 0.0)], 0.5, |x| if x == 3.0 { 4.5 } else { x + 1.0 });
}
'''})
