#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, L = 'doctor-syn/src/', 'libmgen/src/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
                  technique=technique, note=note))


PBT = 'property-based testing (Hypothesis, shrinking) '
TRUST = ' Trusts: '

prop('C01', 'Evaluation of + - * / and comparisons is exact to the digits asked for',
     'Evaluating an expression made of numeric literals, + - * /, unary minus, parentheses and comparisons to n digits '
     '(0 to 60) gives the exact rational value, except that each product and quotient may be off by half a unit of the '
     'n-th decimal place. Sums, differences and negations add no error, and a comparison whose sides are further apart '
     'than that gives the true boolean.',
     ['inputs', 'programs'], 'every arithmetic expression over decimal and integer literals, every n in 0..60, every comparison operator',
     'Unit tests evaluate about ten fixed expressions at one precision; rounding and grouping errors show only for '
     'particular operands and digit counts.',
     [D + 'transformation/eval.rs', D + 'bdmath.rs'],
     [('expression walk and operator table', D + 'transformation/eval.rs'), ('decimal rounding of results', D + 'bdmath.rs round')],
     PBT + 'against exact rational arithmetic', 'Thousands of random trees per run against Python fractions.' + TRUST +
     'the line driver that calls the public API.')
prop('C02', 'Elementary functions evaluate to the requested number of digits',
     'sin, cos, tan (where |cos| > 0.01), asin, acos, atan, exp, ln, log, log2, log10, powf, powi, exp2, sqrt, recip, abs, '
     'signum and the constant PI, evaluated to n digits (10 to 50) on their domains (trig and exp arguments within 12 of 0, '
     'logarithms of 1e-6..1e6, powers of 0.1..20 to exponents within 6 of 0), are within a few units of the n-th place of the true value, '
     'scaled by the conditioning of the function. The arbitrary-precision functions behind them give the same '
     'accuracy when called directly, and nested expressions keep the accuracy implied by their parts.',
     ['inputs', 'programs'], 'every function, argument in the stated domain and digit count; every nesting of them',
     'Tests compare a handful of arguments with f64 results at about 15 digits; series cut-off, argument reduction and '
     'digit handling can fail only for particular magnitudes or precisions.',
     [D + 'bdmath.rs', D + 'transformation/eval.rs'],
     [('series, argument reduction and working precision', D + 'bdmath.rs'), ('method table', D + 'transformation/eval.rs')],
     PBT + 'against mpmath at 140 digits', 'Random arguments, digits and nestings per run, conditioned tolerances.' + TRUST + 'mpmath.')
prop('C03', 'The normal density, distribution and quantile evaluate correctly',
     'erf, erfc, the normal density, distribution and quantile function with any mean in -10..10 and standard deviation in 0.05..20 '
     'evaluate, for arguments within 5 deviations of the mean (|x| ≤ 4 for erf and erfc) and probabilities in 0.0001..0.9999, to 15..45 digits '
     'within a few units of the last place (density scaled by 1/sd). So do erf and erfc for |x| ≤ 9, and the distribution up to 11 '
     'deviations from the mean, to 30..55 digits, where they differ from 0, 1 or 2 by less or more than that. The quantile inverts the distribution '
     'function to the same accuracy.',
     ['inputs'], 'every argument, mean, standard deviation, probability and digit count in the ranges',
     'Tests check the standard normal at a few points only; a wrong use of mean or deviation, or a series that stops '
     'early in the tails, passes them.',
     [D + 'bdmath.rs', D + 'transformation/eval.rs'],
     [('erf series, density, Newton iteration of the quantile', D + 'bdmath.rs')],
     PBT + 'against mpmath, and the quantile/distribution round trip', 'Random arguments; through the evaluator and directly.' + TRUST + 'mpmath.')
prop('C04', 'Expressions without a value are errors, never values or panics',
     'Evaluating an expression that contains, at any depth, an operand with no value (unknown name, unsupported '
     'operator, method or arity, non-numeric literal, division by zero, or an argument outside the domain of the '
     'function) returns an error, and does not panic or return a number. Expressions whose parts all have '
     'values do evaluate.',
     ['programs', 'inputs'], 'every kind of undefined operand, at every position of every surrounding expression',
     'Tests cover only successful evaluations; the error paths of most functions and operators are never run.',
     [D + 'transformation/eval.rs', D + 'bdmath.rs', D + 'error.rs'],
     [('error results of the evaluator', D + 'transformation/eval.rs'), ('domain checks returning no value', D + 'bdmath.rs')],
     PBT + 'with planted undefined operands', 'Every kind of planted defect at random depth.' + TRUST + 'a process-level guard that sees panics.')
prop('C05', 'Decimal rounding is to the nearest, ties away from zero',
     'Rounding a decimal of either sign to n places (0 to 50) gives the nearest decimal with at most n places, ties '
     'away from zero, and rounding again changes nothing. The rounding method inside evaluated expressions gives the '
     'nearest integer by the same rule.',
     ['inputs'], 'every decimal up to 60 digits before and after the point, every n in 0..50',
     'Tests round a few positive values; negative ties, carries into a new digit and already-short values are not reached.',
     [D + 'bdmath.rs', D + 'transformation/eval.rs'], [('decimal round', D + 'bdmath.rs round')],
     PBT + 'against exact rational rounding', 'Ties and their neighbours generated on purpose.' + TRUST + 'Python fractions.')
prop('C06', 'IEEE rounding and bit conversion are exact and nearest-even',
     'Rounding a decimal to 32 or 64 bit floating point gives exactly the nearest float (ties to even) over the '
     'whole normal and subnormal range, as a decimal and as a bit pattern. Converting the bits of any finite float '
     'to a decimal is exact.',
     ['inputs'], 'every decimal, every bit pattern of a finite f32 or f64',
     'Tests convert a few values exactly representable; subnormals, ties, halfway neighbours and values that round up to a '
     'power of two are needed to see errors.',
     [D + 'bdmath.rs', D + 'transformation/eval.rs'], [('float and bit conversions', D + 'bdmath.rs'), ('IEEE rounding method', D + 'transformation/eval.rs')],
     PBT + 'against exact rational nearest-even rounding', 'Bit patterns and exact midpoints.' + TRUST + 'Python fractions and struct.')
prop('C07', 'Numbers survive conversion to expressions and back unchanged',
     'Any finite f32, f64 or decimal converted to an expression and back is the same number, bit for bit (sign of '
     'negative zero aside). A literal converts to the nearest float and to its exact decimal value, and an expression that is not a number is '
     'refused with an error.',
     ['inputs'], 'every finite float bit pattern, every decimal, every literal text',
     'Tests convert two or three short decimals; digits are lost only for particular magnitudes and precisions.',
     [D + 'expression.rs', D + 'exprext.rs'], [('conversions between numbers and expressions', D + 'expression.rs')],
     PBT + 'round trips against exact nearest-even conversion', 'Random bit patterns and literal texts.' + TRUST + 'Python fractions.')
prop('C08', 'Combining expressions with operators means the operation on their values',
     'For any two expressions the +, -, * and / of them is an expression whose value, for every assignment of its '
     'variables, is that operation on their values, in that order, however often operators are applied. '
     'Two numeric literals are combined into one literal with the exact value.',
     ['programs', 'histories'], 'every pair of expressions, every sequence of operator applications, every assignment',
     'Tests add and multiply fixed atoms; grouping errors need operands that are themselves operations.',
     [D + 'expression.rs'], [('operator implementations', D + 'expression.rs')],
     PBT + 'of operator histories against an exact interpreter', 'Values compared at random rational points, in the tree and in its printed form.' + TRUST + 'the check\'s parser and interpreter.')
prop('C09', 'Substitution replaces exactly the named variables and keeps grouping',
     'Substituting a list of variable bindings replaces every occurrence of each bound variable, simultaneously and '
     'nothing else, by an expression with the same value as the bound one. The result evaluates, printed and '
     're-read or not, to the value of the original with the variables bound to these values.',
     ['programs'], 'every expression, every list of bindings (swaps, self references, repeated names included)',
     'Tests substitute one literal into one expression; precedence loss, capture and repeated substitution need '
     'compound bindings and nested positions.',
     [D + 'transformation/subst.rs', D + 'variablelist.rs', D + 'visitor.rs'],
     [('substitution visitor', D + 'transformation/subst.rs'), ('lookup of bindings', D + 'variablelist.rs find')],
     PBT + 'against a reference substitution and numeric evaluation', 'Random trees and bindings; structure and value both compared.' + TRUST + 'the check\'s parser.')
prop('C10', 'Expanding an expression never changes its value and removes products of sums',
     'Expanding an expression of variables, literals, + - * / and negation gives an expression with the same value '
     'for every assignment, other operators, methods and casts being kept. For polynomial expressions the result is '
     'a flat sum of products, with exactly the terms of the full expansion.',
     ['programs'], 'every expression over the supported operators, every assignment',
     'Tests expand about a dozen fixed expressions and compare text; sign and grouping errors need particular nestings.',
     [D + 'transformation/expand.rs'], [('distribution of products and signs', D + 'transformation/expand.rs')],
     PBT + 'against an exact interpreter and a reference expansion', 'Random trees at random rational points; term multisets compared.' + TRUST + 'the check\'s parser and interpreter.')
prop('C11', 'Parenthesising makes every nested operation explicit and changes nothing else',
     'Parenthesising an expression puts parentheses around exactly those operands of operators that are themselves '
     'operations and not already parenthesised, at every depth. It keeps the rest of the expression, '
     'has no other effect (prints nothing), and doing it twice is the same as once.',
     ['programs'], 'every expression over all operators, methods, fields, literals',
     'Tests parenthesise a few fixed expressions.',
     [D + 'transformation/paren.rs', D + 'visitor.rs'], [('parenthesising visitor', D + 'transformation/paren.rs')],
     PBT + 'against a reference transformation', 'Random trees; trees and printed texts compared, output watched.' + TRUST + 'the check\'s parser.')
prop('C12', 'Polynomials interpolate their points and evaluate exactly',
     'A polynomial built from up to 9 points with distinct abscissae (at least 0.05 apart, in any order) has as '
     'many coefficients as points, each equal to that of the unique interpolating polynomial within the rounding of the working '
     'precision. Evaluating it at any decimal gives the exact value of its coefficients\' polynomial.',
     ['inputs'], 'every set of points and ordinates within the ranges, 20 to 70 digits',
     'Tests fit one curve and check it with a loose tolerance at the points themselves.',
     [D + 'polynomial.rs'], [('interpolation and evaluation', D + 'polynomial.rs')],
     PBT + 'against exact rational interpolation', 'Random point sets; forward error bound computed per case.' + TRUST + 'Python fractions.')
prop('C13', 'Generated approximations are the interpolating polynomials asked for',
     'Approximating an expression over an interval by k terms gives, in the named variable, a polynomial that is exact for '
     'polynomials of fewer than k terms, and otherwise within the interpolation error bound of Chebyshev-spaced '
     'nodes including both ends. Odd and even approximations are exactly odd and even, and a term count that does not '
     'fit the parity or is less than two, ends that are equal or not finite, another free variable or an undefined value is an error.',
     ['programs', 'configurations'], 'every expression, interval (either end first), number of terms, parity, variable name and digit count',
     'Tests approximate sin over one interval and compare at a few points to 1e-9 or so.',
     [D + 'transformation/approx.rs', D + 'polynomial.rs'], [('node placement, fit, parity', D + 'transformation/approx.rs')],
     PBT + 'against exact polynomials and analytic interpolation error bounds', 'Random functions, intervals, parities.' + TRUST + 'mpmath; derivative bounds in the check.')
prop('C14', 'Number types rewrite every literal to the nearest float of the type',
     'Rewriting an expression to decimal or hexadecimal literals of 32 or 64 bits replaces every numeric literal by '
     'one that denotes exactly the nearest float of that width (ties to even), as a literal of that float type or as '
     'its bit pattern, and leaves everything else as it was. Other number types leave the expression alone.',
     ['programs', 'configurations'], 'every expression and literal text, both number types, both widths',
     'Tests rewrite a few exactly representable literals.',
     [D + 'transformation/use_number_type.rs', D + 'bdmath.rs'], [('literal rewriting visitor', D + 'transformation/use_number_type.rs')],
     PBT + 'against exact nearest-even rounding', 'Ties, subnormals and long literals.' + TRUST + 'Python fractions.')
prop('C15', 'Transformations keep what they do not touch and refuse what they cannot do',
     'A transformation with nothing to do returns every supported expression (operators, methods, fields, literals, '
     'paths, parentheses) unchanged. Substitution, parenthesising, literal rewriting, collecting and evaluation return an error, not a '
     'changed expression or a panic, when any other syntax occurs anywhere; no transformation or conversion panics on any syntax.',
     ['programs'], 'every supported expression; every unsupported construct at every position',
     'Tests never transform unsupported syntax and only a few node kinds.',
     [D + 'visitor.rs', D + 'transformation/collect.rs', D + 'error.rs'], [('shared visitor', D + 'visitor.rs'), ('error type', D + 'error.rs')],
     PBT + 'with planted unsupported syntax', '26 unsupported constructs at random positions.' + TRUST + 'the check\'s parser.')
prop('C16', 'Expressions print as they were read, and bindings keep their order',
     'Reading any supported expression and printing it gives a text that reads back as the same expression, whatever the spacing, and '
     'invalid text is an error, not a panic. A variable list built from bindings keeps them in order and looks names up to the '
     'first binding of that name, none when there is none.',
     ['programs', 'inputs'], 'every expression text, every list of bindings',
     'Tests parse a few fixed expressions; nothing tests lookup with repeated or missing names.',
     [D + 'expression.rs', D + 'variablelist.rs', D + 'name.rs'], [('parsing and printing', D + 'expression.rs'), ('variable lists', D + 'variablelist.rs')],
     PBT + 'round trips against an independent parser', 'Random spacing and parentheses; random garbage texts.' + TRUST + 'the check\'s parser.')
prop('C17', 'Formatting generated Rust code loses and changes no tokens',
     'Formatting any stream of Rust tokens gives text that reads back as the same tokens in the same order and '
     'grouping: identifiers, literals, lifetimes, multi-character operators and delimiters included. This holds for '
     'all code the generator emits.',
     ['programs'], 'every token stream; every selection of generated functions',
     'The only test formats one function and looks at its text.',
     [D + 'codegen/rust.rs'], [('token formatter', D + 'codegen/rust.rs format_token_stream')],
     PBT + 'round trips of random token streams', 'Random streams, items and real generator output re-lexed.' + TRUST + 'proc-macro2\'s lexer.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_properties.py')).read()
     if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more_properties.py')) else '')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3-vt -B tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3-vt -B checks/run.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt -B checks/run.py ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'],
    } for p in P],
    'not_applicable': [],
    'notes': 'Every check takes --replay FILE to re-run the case of a VIOLATION line. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
