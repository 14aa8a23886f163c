//! Line-oriented driver around the public API of doctor-syn.
//!
//! Request : fields separated by TAB, with \\ \t \n escaped.
//! Response: one line "@@\tOK\t..." | "@@\tERR\t<display>" | "@@\tPANIC\t<msg>" | "@@\tBAD\t<msg>"
//! Anything else that appears on stdout was printed by the library itself.

use doctor_syn::bdmath;
use doctor_syn::bigdecimal::BigDecimal;
use doctor_syn::polynomial::Polynomial;
use doctor_syn::proc_macro2::{Delimiter, TokenStream, TokenTree};
use doctor_syn::quote::ToTokens;
use doctor_syn::syn;
use doctor_syn::{codegen, Expression, Name, Parity, VariableList};
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

enum Out {
    Err(String),
    Bad(String),
}

type R = Result<Vec<String>, Out>;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => r.push('\t'),
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

fn bad<T: std::fmt::Display>(m: T) -> Out {
    Out::Bad(m.to_string())
}
fn ler(e: doctor_syn::Error) -> Out {
    Out::Err(e.to_string())
}

fn expr(s: &str) -> Result<Expression, Out> {
    syn::parse_str::<syn::Expr>(s).map(Expression::from).map_err(|e| bad(format!("parse {:?}: {}", s, e)))
}
fn name(s: &str) -> Result<Name, Out> {
    syn::parse_str::<syn::Path>(s).map(Name::from).map_err(bad)
}
fn dec(s: &str) -> Result<BigDecimal, Out> {
    BigDecimal::from_str(s).map_err(|e| bad(format!("{:?}", e)))
}
fn int(s: &str) -> Result<i64, Out> {
    s.parse::<i64>().map_err(bad)
}
fn f64bits(s: &str) -> Result<f64, Out> {
    u64::from_str_radix(s, 16).map(f64::from_bits).map_err(bad)
}
fn parity(s: &str) -> Result<Parity, Out> {
    match s {
        "odd" => Ok(Parity::Odd),
        "even" => Ok(Parity::Even),
        "neither" => Ok(Parity::Neither),
        _ => Err(bad("parity")),
    }
}

/// Structure of an expression, independent of the way it is displayed.
fn sexp(e: &syn::Expr) -> String {
    use syn::Expr::*;
    match e {
        Lit(l) => match &l.lit {
            syn::Lit::Float(f) => format!("(F {} {})", f.base10_digits(), q(f.suffix())),
            syn::Lit::Int(f) => format!("(I {} {})", f.base10_digits(), q(f.suffix())),
            syn::Lit::Bool(b) => format!("(B {})", b.value),
            other => format!("(L {})", strq(&other.to_token_stream().to_string())),
        },
        Path(p) => format!("(V {})", strq(&p.to_token_stream().to_string().replace(' ', ""))),
        Paren(p) => format!("(P {})", sexp(&p.expr)),
        Group(p) => sexp(&p.expr),
        Unary(u) => format!("(U {} {})", strq(&u.op.to_token_stream().to_string()), sexp(&u.expr)),
        Binary(b) => format!("(O {} {} {})", strq(&b.op.to_token_stream().to_string()), sexp(&b.left), sexp(&b.right)),
        MethodCall(m) => {
            let args: Vec<String> = m.args.iter().map(sexp).collect();
            let types = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
            format!("(M {} {} {})", strq(&format!("{}{}", m.method, types)), sexp(&m.receiver), args.join(" "))
        }
        Call(m) => {
            let args: Vec<String> = m.args.iter().map(sexp).collect();
            format!("(C {} {})", sexp(&m.func), args.join(" "))
        }
        Field(f) => format!("(D {} {})", sexp(&f.base), strq(&f.member.to_token_stream().to_string())),
        Cast(c) => format!("(A {} {})", sexp(&c.expr), strq(&c.ty.to_token_stream().to_string().replace(' ', ""))),
        _ => format!("(X {})", strq(&e.to_token_stream().to_string())),
    }
}
fn q(s: &str) -> String {
    if s.is_empty() {
        "-".into()
    } else {
        s.into()
    }
}
fn strq(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// Structural dump of tokens without spans and spacing. Multi-character
/// operators appear as their single characters, in order, so `joint` marks are
/// kept where two punctuation characters touch.
fn dump(ts: TokenStream, spacing: bool, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                out.push('\u{1}');
                dump(g.stream(), spacing, out);
                out.push_str(b);
                out.push('\u{1}');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if spacing && p.spacing() == doctor_syn::proc_macro2::Spacing::Joint {
                    out.push('\u{2}');
                }
                out.push('\u{1}');
            }
            other => {
                out.push_str(&other.to_string());
                out.push('\u{1}');
            }
        }
    }
}

fn out_expr(e: &Expression) -> Vec<String> {
    vec![sexp(e.as_ref()), e.to_string()]
}

fn bd1(f: &str, d: i64, a: &[BigDecimal]) -> Result<Option<BigDecimal>, Out> {
    let g = |i: usize| a.get(i).cloned().ok_or_else(|| bad("args"));
    Ok(match f {
        "pi" => Some(bdmath::pi(d)),
        "sqrt_two" => Some(bdmath::sqrt_two(d)),
        "one_over_root_two_pi" => Some(bdmath::one_over_root_two_pi(d)),
        "sin" => Some(bdmath::sin(g(0)?, d)),
        "cos" => Some(bdmath::cos(g(0)?, d)),
        "tan" => Some(bdmath::tan(g(0)?, d)),
        "asin" => Some(bdmath::asin(g(0)?, d)),
        "acos" => Some(bdmath::acos(g(0)?, d)),
        "atan" => Some(bdmath::atan(g(0)?, d)),
        "exp" => Some(bdmath::exp(g(0)?, d)),
        "ln" => bdmath::ln(g(0)?, d),
        "log" => bdmath::log(g(0)?, g(1)?, d),
        "pow" => bdmath::pow(g(0)?, g(1)?, d),
        "sqrt" => bdmath::sqrt(g(0)?, d),
        "erf" => Some(bdmath::erf(g(0)?, d)),
        "erfc" => Some(bdmath::erfc(g(0)?, d)),
        "dnorm" => Some(bdmath::dnorm(g(0)?, g(1)?, g(2)?, d)),
        "pnorm" => Some(bdmath::pnorm(g(0)?, g(1)?, g(2)?, d)),
        "qnorm" => bdmath::qnorm(g(0)?, g(1)?, g(2)?, d),
        "round" => Some(bdmath::round(g(0)?, d)),
        "round_ieee" => return bdmath::round_ieee(g(0)?, g(1)?, d).map(Some).map_err(ler),
        _ => return Err(bad(format!("no bd function {}", f))),
    })
}

fn vars(a: &[String]) -> Result<VariableList, Out> {
    let mut v = VariableList::new();
    for p in a.chunks(2) {
        if p.len() != 2 {
            return Err(bad("odd var list"));
        }
        v.add_var(name(&p[0])?, expr(&p[1])?);
    }
    Ok(v)
}

/// One step of a transformation pipeline: op[:arg[:arg..]] with ';;' between arguments.
fn step(e: Expression, s: &str) -> Result<Expression, Out> {
    let parts: Vec<String> = s.split(";;").map(|x| x.to_string()).collect();
    let a = &parts[1..];
    match parts[0].as_str() {
        "subst" => e.subst(vars(a)?).map_err(ler),
        // a value that is a number, not source text: it may be a negative literal
        "substbd" => {
            let mut v = VariableList::new();
            for p in a.chunks(2) {
                v.add_var(name(&p[0])?, Expression::from(dec(&p[1])?));
            }
            e.subst(v).map_err(ler)
        }
        "expand" => e.expand().map_err(ler),
        "paren" => e.paren().map_err(ler),
        "collect" => e.collect_terms(name(&a[0])?).map_err(ler),
        "numtype" => e.use_number_type(&a[0], int(&a[1])? as usize).map_err(ler),
        "eval" => e.eval(int(&a[0])?).map_err(ler),
        "approx" => e
            .approx(int(&a[0])? as usize, f64bits(&a[1])?, f64bits(&a[2])?, name(&a[3])?, parity(&a[4])?, int(&a[5])?)
            .map_err(ler),
        "reparse" => expr(&e.to_string()),
        "addr" => Ok(e + expr(&a[0])?),
        "subr" => Ok(e - expr(&a[0])?),
        "mulr" => Ok(e * expr(&a[0])?),
        "divr" => Ok(e / expr(&a[0])?),
        "addl" => Ok(expr(&a[0])? + e),
        "subl" => Ok(expr(&a[0])? - e),
        "mull" => Ok(expr(&a[0])? * e),
        "divl" => Ok(expr(&a[0])? / e),
        _ => Err(bad(format!("no step {}", s))),
    }
}

fn handle(cmd: &str, a: &[String]) -> R {
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).ok_or_else(|| bad("missing argument"));
    match cmd {
        "ping" => Ok(vec!["pong".into()]),
        // pipe <expr> <step>*   -> sexp, display of the final expression
        "pipe" => {
            let mut e = expr(arg(0)?)?;
            for s in &a[1..] {
                e = step(e, s)?;
            }
            Ok(out_expr(&e))
        }
        // pipeall <expr> <step>* -> sexp, display of every intermediate expression
        "pipeall" => {
            let mut e = expr(arg(0)?)?;
            let mut r = out_expr(&e);
            for s in &a[1..] {
                e = step(e, s)?;
                r.extend(out_expr(&e));
            }
            Ok(r)
        }
        "fromstr" => {
            let e = Expression::from_str(arg(0)?).map_err(ler)?;
            Ok(out_expr(&e))
        }
        "preds" => {
            let e = expr(arg(0)?)?;
            Ok(vec![e.is_lit().to_string(), e.is_numeric().to_string()])
        }
        "to" => {
            let e = expr(arg(1)?)?;
            match arg(0)? {
                "f64" => f64::try_from(&e).map(|v| vec![format!("{:016x}", v.to_bits())]).map_err(ler),
                "f32" => f32::try_from(&e).map(|v| vec![format!("{:08x}", v.to_bits())]).map_err(ler),
                "bd" => BigDecimal::try_from(&e).map(|v| vec![v.to_string()]).map_err(ler),
                _ => Err(bad("to")),
            }
        }
        // value -> Expression -> value, without any text in between
        "rt" => match arg(0)? {
            "f64" => {
                let e = Expression::from(f64bits(arg(1)?)?);
                let v = f64::try_from(&e).map_err(ler)?;
                let b = BigDecimal::try_from(&e).map_err(ler)?;
                let mut r = vec![format!("{:016x}", v.to_bits()), b.to_string()];
                r.extend(out_expr(&e));
                Ok(r)
            }
            "f32" => {
                let x = f32::from_bits(u32::from_str_radix(arg(1)?, 16).map_err(bad)?);
                let e = Expression::from(x);
                let v = f32::try_from(&e).map_err(ler)?;
                let b = BigDecimal::try_from(&e).map_err(ler)?;
                let mut r = vec![format!("{:08x}", v.to_bits()), b.to_string()];
                r.extend(out_expr(&e));
                Ok(r)
            }
            "bd" => {
                let e = Expression::from(dec(arg(1)?)?);
                let b = BigDecimal::try_from(&e).map_err(ler)?;
                let mut r = vec![String::new(), b.to_string()];
                r.extend(out_expr(&e));
                Ok(r)
            }
            _ => Err(bad("rt")),
        },
        "varfind" => {
            let v = vars(&a[1..])?;
            let r = v.find(&name(arg(0)?)?);
            Ok(vec![r.map(|e| sexp(e.as_ref())).unwrap_or("NONE".into()), v.to_string()])
        }
        "bigdf" => Ok(vec![bdmath::bigdf(f64bits(arg(0)?)?).to_string()]),
        "bigdf32" => {
            let x = f32::from_bits(u32::from_str_radix(arg(0)?, 16).map_err(bad)?);
            Ok(vec![bdmath::bigdf32(x).to_string()])
        }
        "digits" => Ok(vec![bdmath::num_digits_for(int(arg(0)?)? as usize).to_string()]),
        // bd <f> <digits> <args>*
        "bd" => {
            let v: Result<Vec<BigDecimal>, Out> = a[2..].iter().map(|s| dec(s)).collect();
            let r = bd1(arg(0)?, int(arg(1)?)?, &v?)?;
            Ok(vec![r.map(|x| x.to_string()).unwrap_or("NONE".into())])
        }
        // poly <digits> <n> x.. y.. z..   -> terms | values at z
        "poly" => {
            let d = int(arg(0)?)?;
            let n = int(arg(1)?)? as usize;
            let v: Result<Vec<BigDecimal>, Out> = a[2..].iter().map(|s| dec(s)).collect();
            let v = v?;
            let p = Polynomial::from_points(&v[..n], &v[n..2 * n], d);
            let mut r: Vec<String> = p.terms().iter().map(|t| t.to_string()).collect();
            r.push("|".into());
            for z in &v[2 * n..] {
                r.push(p.eval(z.clone()).to_string());
            }
            Ok(r)
        }
        // fmt <source> -> text, dump(in), dump(reparsed text) (or the parse error)
        "fmt" => {
            let ts = TokenStream::from_str(arg(0)?).map_err(bad)?;
            let text = codegen::rust::format_token_stream(ts.clone());
            let (mut d1, mut d2) = (String::new(), String::new());
            dump(ts, true, &mut d1);
            match TokenStream::from_str(&text) {
                Ok(t) => dump(t, true, &mut d2),
                Err(e) => d2 = format!("LEXERROR {}", e),
            }
            Ok(vec![text, d1, d2])
        }
        "to_c" => {
            let f: syn::File = syn::parse_str(arg(0)?).map_err(bad)?;
            let mut o = codegen::c::Options::default();
            o.prefix = arg(1)?.to_string();
            o.float_suffix = arg(2)?.to_string();
            Ok(vec![codegen::c::to_c(&f, o)])
        }
        "to_simd" => {
            let f: syn::File = syn::parse_str(arg(0)?).map_err(bad)?;
            let mut o = codegen::portable_simd::Options::default();
            o.num_bits = int(arg(1)?)? as usize;
            let g = codegen::portable_simd::to_simd(&f, o);
            Ok(vec![codegen::rust::format_token_stream(g.to_token_stream()), g.to_token_stream().to_string()])
        }
        // threads <n> <command>*, its fields separated by \u{1f}: all at once, each in its own thread, n times
        // (the first answer, or the first one that differs from it)
        "threads" => {
            let n: usize = a[0].parse().unwrap();
            let all: Vec<Vec<String>> = a[1..].iter().map(|c| c.split('\u{1f}').map(|s| s.to_string()).collect()).collect();
            let gate = std::sync::Arc::new(std::sync::Barrier::new(all.len()));
            let running: Vec<_> = all
                .into_iter()
                .map(|c| {
                    let gate = gate.clone();
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || {
                            gate.wait();
                            let first = answer(&c);
                            let (tag, body) = (1..n).map(|_| answer(&c)).find(|r| *r != first).unwrap_or(first);
                            std::iter::once(tag.to_string()).chain(body).collect::<Vec<_>>().join("\u{1f}")
                        })
                        .unwrap()
                })
                .collect();
            Ok(running.into_iter().map(|t| t.join().unwrap()).collect())
        }
        _ => Err(bad(format!("unknown command {}", cmd))),
    }
}

fn answer(f: &[String]) -> (&'static str, Vec<String>) {
    let r = catch_unwind(AssertUnwindSafe(|| handle(&f[0], &f[1..])));
    match r {
        Ok(Ok(v)) => ("OK", v),
        Ok(Err(Out::Err(m))) => ("ERR", vec![m]),
        Ok(Err(Out::Bad(m))) => ("BAD", vec![m]),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            ("PANIC", vec![m])
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let child = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let f: Vec<String> = line.split('\t').map(unesc).collect();
                let (tag, body) = answer(&f);
                let mut o = std::io::stdout();
                let body: Vec<String> = body.iter().map(|s| esc(s)).collect();
                writeln!(o, "\n@@\t{}\t{}", tag, body.join("\t")).unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
