#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
FIXED = [
 ('C08', '60e6ba6', '`-`, `*` and `/` of non-numeric expressions produced `+` or lost the operator'),
 ('C14', '4e7dcc9', 'hex literals of 64 bits were written with f32::from_bits'),
 ('C11', '451cacf', 'parenthesising printed a debug line to stdout'),
 ('C03', 'fd4ad4d', 'the quantile with a mean far from 0 did not converge (wrong value)'),
 ('C04', 'c6deab5', 'evaluating undefined operations (division by 0, ln(-1), ..) panicked'),
 ('C06', '1491b07', 'decimal/IEEE conversions lost digits, mis-rounded ties and subnormals'),
 ('C07', '6de1d19', 'an expression made from an f64 or f32 did not read back as the same float'),
 ('C14', 'ff1529b', 'literals were rounded to the wrong float (double rounding, ties, subnormals)'),
 ('C09', '831eae8', 'substituting a compound or negative value printed with the wrong grouping'),
 ('C10', 'da3a5f9', 'expand dropped parentheses of operators that it does not expand'),
 ('C17', '5f42a25', 'the formatter glued tokens together (`- -x`, `a as T <b`) and stopped at a depth of indentation'),
 ('C21', '4b56266', 'ONE_BITS and ONE_MASK had a signed type, so users of them did not compile'),
 ('C22', '46ee5fa', 'the message about excluded functions was written into the generated code'),
 ('C21', '3e267d9', 'functions named helpers or constants that were not among their dependencies'),
 ('C21', 'e9c1ea4', 'runif did not compile for 32 bits'),
 ('C35', 'aa8892e', 'the generated rnorm test did not compile for 32 bits or alone'),
 ('C18', '6054396', 'C output lost the grouping of nested operators'),
 ('C18', '66cc0ff', 'C output wrote float literals such as 2f32 as integers'),
 ('C18', '0239646', 'C output called float methods and constants by names C does not have'),
 ('C18', '84932f3', 'locals without a type or shadowing another could not be expressed in C'),
 ('C19', '589c0d8', 'C functions were used before they were declared'),
 ('C33', '4980c0f', 'log2 of NaN was a number and of infinity was 1024'),
 ('C33', 'c728cb5', 'tanh of large arguments NaN; asinh of negative and powi of negative arguments wrong'),
 ('C20', '9a3a595', 'portable-simd output called functions that do not exist as methods, mixed scalar integers in, and failed on hex coefficients'),
 ('C30', 'dd60557', 'hypot of two tiny negative numbers was negative'),
 ('C19', '3ddf516', '--function-prefix had no effect on the C functions'),
 ('C30', '7bc4367', 'recip and sqrt (and their estimates) were wrong away from 1, e.g. recip(100), sqrt(0.25)'),
 ('C21', '1da1cd2', 'C output of hex literals named uty, which a selection need not define'),
 ('C21', 'cecaf83', 'nextafter did not list uty nor ln_1p ln, which C and portable-simd output name'),
 ('C35', '553ee3d', 'generated tests passed for functions that are NaN'),
 ('C10', '4ad5243', 'the negation of `(x % y)` and the like was printed as that of its first operand'),
 ('C18', 'cce4d76', 'the suffix of integer literals was lost in C, so 1u64 << 40 was an int'),
 ('C18', 'd6f6fca', 'C output had `<<span>>` in place of an assignment'),
 ('C20', 'cccbf2f', 'portable-simd left casts such as `x as f32` untranslated and did not parenthesise `-x as ity`'),
 ('C19', '53cbe20', 'the 32 and 64 bit C libraries both exported constants of the same names and did not link together'),
 ('C10', 'ca6caa8', 'expanding `x * (x % y + z)` and `-(x as f64 / y)` lost their grouping'),
 ('C18', 'b206b24', '1f32 was written as the integer 1 in C'),
 ('C18', '9f04330', 'C locals without a type had no type at all, and `let _ = e` did not compile'),
 ('C21', 'f260e2d', 'runif and rnorm as C did not compile'),
 ('C21', 'b4d8513', 'nextafter as portable-simd did not compile'),
 ('C20', '1ab4493', 'portable-simd output put constants before the constants they use'),
 ('C20', '5f0d900', 'portable-simd output left && and || between masks'),
 ('C41', '58b3cce', 'runif(usize::MAX, ..) and rnorm panicked in builds with overflow checks'),
 ('C41', '62abe75', 'nextafter of the NaN of all bits overflowed'),
 ('C42', '52b1715', '`[a, b] == [c, d]` was the comma expression `a, b == c, d` in C'),
 ('C42', '6fe40c4', '0.1f32 as f64, 200u8 + 100, 1usize << 40 had other values in C'),
 ('C42', '64b2345', '`let x = x * 2` that shadows an outer x read the new x, not initialised'),
 ('C42', 'b4bd4bb', 'abs and pow of 64 bit integers went through double, and abs() / 2 was not whole'),
 ('C13', 'd9ce0c0', 'approx panicked for 0 or 1 terms, for equal ends and for ends that are NaN or infinite'),
 ('C42', '6dacc95', 'powf of 64 bits was powf of C, of float precision'),
 ('C43', '7dee3c8', '`let m: uty = 1 << 31; m >> 1` and constants of uty were signed in to_simd'),
 ('C43', '1be6b3b', '`let helper = |q| ..; helper(x)` called the method helper in to_simd'),
 ('C43', 'ad0b44a', '`if c { return x } else { y }`, `{ a = x; a }` in a branch and after && took effect in every lane in to_simd'),
 ('C10', 'da37af2', 'expand left sums under double parentheses and negations inside products as they were'),
 ('C20', '8d70717', 'to_simd took the literals beside unsigned operands for signed, which did not compile'),
 ('C49', 'b6f02b2', 'negate_on_odd shifted a signed 1 into the sign bit, undefined in C'),
]
FINDINGS = [{'property': 'C35', 'signature': '%s of %d bits fails' % t,
             'what': 'the generated test %s of %d bits fails: the function is less accurate than the limit of the test' % t}
            for t in [('test_acos', 64), ('test_acos2', 64), ('test_log2_1', 64), ('test_log2_2', 64), ('test_log_1', 64), ('test_qnorm_1', 32),
                      ('test_qnorm_1', 64), ('test_rnorm', 32), ('test_rnorm', 64), ('test_tan', 64), ('test_tan2', 64)]]
FINDINGS.append({'property': 'C35', 'signature': 'histogram tests judge the last bucket only',
                 'what': 'the generated histogram tests (test_runif, test_rnorm) keep the error of the last bucket only, so a wrong distribution elsewhere passes'})
FINDINGS.append({'property': 'C21', 'signature': 'pnorm generates no code',
                 'what': 'pnorm is listed as a function, alone and in normal, stats and all, but asking for it generates no code'})
for lang, name in (('c', 'sin_cos'), ('portable-simd', 'sin_cos'), ('portable-simd', 'runif'), ('portable-simd', 'rnorm')):
    FINDINGS.append({'property': 'C21', 'signature': '%s of %s does not compile' % (lang, name),
                     'what': '%s as %s is accepted but what is generated does not compile (%s)' % (
                         name, lang, 'a pair cannot be returned' if name == 'sin_cos' else 'the index is taken for the vector')})
for sig in ('! of an integer is logical in C', 'integer literals without suffix are int in C', 'to_bits of an f32 where fty is f64',
            'operands that change variables have no order in C'):
    FINDINGS.append({'property': 'C42', 'signature': sig, 'what': 'C that compiles and computes something else: ' + sig})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': ['fixed: property=%s %s %s' % t for t in FIXED]}, f, indent=1)
    f.write('\n')
