# C18..C49: the back ends, the generator and the generated functions.
GEN = [L + 'main.rs', L + 'functions.rs', L + 'config.rs']
UNITS = ' Errors are counted in units of 2^-23 (32 bits) and 2^-52 (64 bits), relative to 1 unless said otherwise.'
ORACLE = PBT.replace('(Hypothesis, shrinking)', '(numeric generators, simplified failures)')
QUAD = 'Hundreds of thousands of points per function; thorough: millions, and all of binary32 on narrow ranges.' + TRUST + 'libquadmath, mpmath, rustc.'

prop('C18', 'C output computes what the Rust functions compute',
     'The C text made from a file of functions compiles, and each function returns, for every argument, the value the Rust function '
     'returns (arithmetic wrapping, mul_add not fused, 32 bit intermediate values possibly of higher precision). Supported: functions of '
     'float, signed and unsigned parameters, typed and untyped lets, ignored values, assignments, blocks, if-else chains, comparisons and logical operators, '
     'arithmetic, bit operations and shifts, casts, every spelling of literals with and without suffix, literal constants, from_bits, '
     'to_bits, mul_add, round, abs, sqrt, recip, copysign, ln and the methods with the same name in C, calls in any order of definition.',
     ['programs', 'inputs'], 'every program of that shape and every argument whose conversions are in range',
     'One test prints the C of a fixed function and does not compile it; precedence, literal types and statement forms go wrong only for '
     'particular combinations.',
     [D + 'codegen/c.rs'], [('visitor that writes C', D + 'codegen/c.rs')],
     PBT + 'differential, random programs', 'Random typed programs, compiled by gcc and compared with a reference interpreter.' + TRUST +
     'gcc, the interpreter of the check (cross-checked against rustc in C20).')
prop('C19', 'C symbols are the prefix and the function name, and nothing else leaks',
     'The external symbols of compiled C output are exactly the chosen prefix followed by the name of each function: the default prefix is '
     'ds32_ or ds64_, --function-prefix replaces it. Every function has a prototype ahead of its use, what stays undefined is in libm, '
     'another prefix changes only these names, and the 32 and 64 bit libraries link into one program.',
     ['programs', 'configurations'], 'every program, prefix and selection of functions',
     'No test compiles C output or uses another prefix.',
     [D + 'codegen/c.rs', L + 'main.rs'], [('prefix of signatures and calls', D + 'codegen/c.rs'), ('choice of the prefix', L + 'main.rs')],
     PBT + 'over symbol tables, metamorphic in the prefix', 'nm of compiled random programs and selections.' + TRUST + 'gcc and nm.')
prop('C20', 'Portable-simd output computes each lane as the scalar function does',
     'The methods made from a file of float functions (first parameter a float; typed lets, assignments, if-else of single expressions with '
     'single comparisons, arithmetic, bit operations, shifts, casts between the three lane types by alias or by name, float and integer '
     'literals, literal constants, from_bits and to_bits, float methods, calls in any order) compile, and give in every lane exactly what the '
     'scalar function gives for the elements of that lane.',
     ['programs', 'inputs'], 'every program of that shape, 32 and 64 bits, every number of lanes and every argument',
     'One test prints the result for a fixed function and does not compile it.',
     [D + 'codegen/portable_simd.rs'], [('visitor that makes methods of functions', D + 'codegen/portable_simd.rs')],
     PBT + 'differential, random programs', 'Random programs with the scalar source next to it in one crate.' + TRUST +
     'rustc; lib/simd_shim.rs stands in for the portable-simd crate.')
prop('C21', 'Every selection of functions generates self-contained code that compiles',
     'For any list of functions, constants, types and groups, in 32 or 64 bits, with decimal or hex literals, as Rust, C or portable-simd, '
     'libmgen succeeds and its output compiles on its own and defines everything that was asked for.',
     ['configurations'], 'every selection, width, number type and language',
     'The tests compile four fixed selections, in Rust only; a missing dependency shows only when nothing else selects it.',
     GEN + [D + 'codegen/c.rs', D + 'codegen/portable_simd.rs'], [('dependency closure', L + 'main.rs'), ('dependencies of each function', L + 'functions.rs')],
     PBT + 'of selections, every single name included', 'Random selections compiled by rustc and gcc.' + TRUST + 'rustc, gcc, the simd shim.')
prop('C22', 'Selections generate a union of items, in any order, without what is excluded',
     'The output depends only on the set of names: repeating a run, the order and the repetition of names change nothing, and no item is '
     'defined twice. The items of a union are the union of the items of its parts, an item has the same text in every selection, excluded names '
     'are absent and exclusion changes no other item. With -o the file has exactly this text and stdout none of it.',
     ['configurations', 'histories'], 'every pair of selections, permutation, repetition and exclusion',
     'No test compares two outputs.',
     GEN, [('selection, exclusion, ordering', L + 'main.rs'), ('dependencies', L + 'functions.rs')],
     PBT + 'metamorphic', 'Each case runs libmgen four to seven times.' + TRUST + 'the item splitter of the check.')
prop('C23', 'Hex and decimal literals generate the same functions and constants',
     'A library generated with --number-type hex returns, for every function and argument and for every constant, the same bits as the one '
     'generated with decimal literals.',
     ['configurations', 'inputs'], 'every function, constant, width and argument',
     'No test generates hex literals.',
     [D + 'transformation/use_number_type.rs', L + 'config.rs'], [('literal rewriting', D + 'transformation/use_number_type.rs'), ('number types', L + 'config.rs')],
     ORACLE + 'differential', 'Both libraries evaluated at the same points, specials included.' + TRUST + 'rustc.')
prop('C24', 'Generated sin, cos, tan and sin_cos are accurate for |x| up to 1000',
     'sin, cos and both parts of sin_cos are within 1.5 + 2|x| units of the true value for |x| ≤ 1000, and sin is within 4 units relative to '
     'itself for |x| ≤ pi/2; tan is within 5 units relative to itself for |x| ≤ 1.1, and within (4 + 2|x|)(1 + tan²) units for |x| ≤ 1000 '
     'with |cos| ≥ 0.001.' + UNITS,
     ['inputs'], 'every float in the ranges, 32 and 64 bits',
     'Generated tests look at fixed grids between -pi and pi with wider limits; larger arguments and both sides of the reduction are not reached.',
     [L + 'trig.rs'], [('argument reduction and polynomials', L + 'trig.rs')], ORACLE + 'against quad precision', QUAD)
prop('C25', 'Generated asin, acos, atan and atan2 are accurate everywhere',
     'asin is within 2 units and within 4 relative to itself for |x| ≤ 0.7; acos within 4 (32 bits) or 7 (64 bits) units for |x| ≤ 0.7; both within '
     '10 + 0.3/sqrt(1 - x²) units on -1..1. atan is within 4 (7) units for |x| ≤ 1e30 and within 5 (17) relative to itself for |x| ≤ 8. atan2 of '
     'finite coordinates between 2^-30 and 2^30 in size, not both 0, is within 5 units, in every quadrant, on the axes and on the diagonals.' + UNITS,
     ['inputs'], 'every float and pair of floats in the ranges, 32 and 64 bits',
     'Generated tests look at fixed grids in the middle of the ranges, atan2 at one ray or circle.',
     [L + 'inv_trig.rs'], [('reductions and polynomials', L + 'inv_trig.rs')], ORACLE + 'against quad precision', QUAD)
prop('C26', 'Generated exp2, exp and exp_m1 are accurate and saturate',
     'exp2 is within 1.5 units relative to itself for |x| ≤ 126 (1022); exp within 1.5 + 0.8|x| relative to itself and exp_m1 within 1.5 + (1.5 + 0.8|x|)|r| '
     'units, r being the value, for |x| ≤ 126 ln 2 (1022 ln 2). More than 2 (in powers of two) beyond these ranges exp2 and exp are exactly infinity above and 0 below.' + UNITS,
     ['inputs'], 'every float, 32 and 64 bits',
     'Generated tests look at fixed grids within 1 or 2 of 0.',
     [L + 'log_exp.rs'], [('exponent bits and polynomials', L + 'log_exp.rs')], ORACLE + 'against quad precision', QUAD)
prop('C27', 'Generated logarithms are accurate over all positive numbers',
     'log2, ln and log10 are within 2, 1.5 and 2 units plus 1.5|r| for every normal positive number, r being the value; ln_1p within 1.5 + |r| on -0.9..1e6; log(x, b) within '
     '(3 + |log2 x| + 3|r|)/|log2 b| + |r| for x in 2^-60..2^60 and b in 1e-6..1e6 with |b - 1| > 0.05.' + UNITS,
     ['inputs'], 'every positive float (and base), 32 and 64 bits',
     'Generated tests look at fixed grids close to 1.',
     [L + 'log_exp.rs'], [('mantissa reduction and polynomials', L + 'log_exp.rs')], ORACLE + 'against quad precision', QUAD)
prop('C28', 'Generated powf and powi are accurate wherever the power is in range',
     'powf of a positive base and powi of a base of either sign are within 2 + |y|(2 + |log2 |x||) units relative to the power, wherever '
     '|y log2 |x|| < 100 (900), whole exponents of powi of either sign and parity included.' + UNITS,
     ['inputs'], 'every base and exponent in the range, 32 and 64 bits',
     'Generated tests use one or two fixed exponents or bases.',
     [L + 'log_exp.rs'], [('powers through log2 and exp2; sign of odd powers', L + 'log_exp.rs')], ORACLE + 'against quad precision', QUAD)
prop('C29', 'Generated hyperbolic functions and their inverses are accurate',
     'sinh is within 1.5 + (2 + 0.8|x|)|r| units and cosh within (2 + 0.8|x|)|r| for |x| ≤ 80 (700), r being the value; tanh within 2.5 everywhere to 1e30; asinh within '
     '2.5 + 2|r| for |x| ≤ 1e18; acosh within 3 + 2|r| + 1/sqrt(x² - 1) on 1.001..1e18; atanh within 1 + |r| + 0.5/(1 - |x|) on -0.999..0.999.' + UNITS,
     ['inputs'], 'every float in the ranges, 32 and 64 bits',
     'Generated tests look at fixed grids close to 0 (not run by the test suite for all widths).',
     [L + 'hyperbolic.rs'], [('hyperbolic functions through exp, ln and sqrt', L + 'hyperbolic.rs')], ORACLE + 'against quad precision', QUAD)
prop('C30', 'Generated recip, sqrt, cbrt and hypot are accurate at every magnitude',
     'recip is within 2, sqrt and cbrt are within 1.5 units relative to the value for every |x| between 2^-120 and 2^120 (2^-1000 and 2^1000), of either '
     'sign for recip and cbrt; hypot is within 2 units relative to itself for coordinates of either sign between 2^-60 and 2^60 (2^-500 and 2^500) or 0, of any ratio.' + UNITS,
     ['inputs'], 'every float and pair of floats in the ranges, 32 and 64 bits',
     'Generated tests look at fixed grids around 1; recip and sqrt were wrong away from them.',
     [L + 'recip_sqrt.rs', L + 'auxfuncs.rs'], [('estimates from the bits, Newton steps', L + 'recip_sqrt.rs')], ORACLE + 'against quad precision', QUAD)
prop('C31', 'Generated dnorm and qnorm are accurate for every mean and deviation',
     'dnorm is within (2.5 + 0.8x²) units relative to itself for the standard normal, |x| ≤ 8, and within 4 + 3z² at z deviations of any mean in -10..10 '
     'with deviation 1/16..16. qnorm is within 0.003 (64 bits 0.0005) deviations for probabilities in 0.1..0.9, 0.03 (0.006) in 0.01..0.99 and 0.7 (0.3) '
     'in 0.0001..0.9999, for the same means and deviations.' + UNITS,
     ['inputs'], 'every argument, probability, mean and deviation in the ranges, 32 and 64 bits',
     'Generated tests use mean 0 and deviation 1 on a fixed grid.',
     [L + 'stats_norm.rs'], [('density and quantile', L + 'stats_norm.rs')], ORACLE + 'against quad precision', QUAD)
prop('C32', 'Generated random numbers are uniform and normal, a pure function of the index',
     'runif(i, a, b) is a + u (b - a), where u is made of the bits of the splitmix64 hash of the index i, for every whole index below 2^53, in 32 and 64 bits, as Rust and as C, '
     'and lies in a..b. Consecutive, strided and random indices give sequences that are uniformly distributed and serially uncorrelated. rnorm(i, m, s) is m + s times the '
     'normal quantile of the uniform number of the same index, within the accuracy of qnorm.',
     ['inputs', 'histories'], 'every index and range; sequences of indices',
     'The generated tests histogram one sequence and keep only the last bucket.',
     [L + 'stats_random.rs', L + 'auxfuncs.rs', L + 'stats_norm.rs'], [('hash of the index', L + 'stats_random.rs'), ('quantile', L + 'stats_norm.rs')],
     ORACLE + 'against a reference generator and distribution tests', 'Exact comparison per index, Kolmogorov-Smirnov and serial correlation per sequence.' + TRUST + 'the reference splitmix64.')
prop('C33', 'Generated functions give NaN, infinity and limits where these are due',
     'NaN gives NaN for every function of one argument (trigonometric and inverse, exp, log, hyperbolic and inverse, sqrt, cbrt, recip). Arguments outside the domain '
     'give NaN: |x| > 1 for asin, acos, atanh, x < 1 for acosh, x < 0 for ln, log2, log10 and both arguments of log, x < -1 for ln_1p. Limits: ln, log2, log10 of 0, inf and 1, ln_1p of -1, inf '
     'and 0, exp and exp2 of ±inf and 0, atan and asinh, sinh, cosh, tanh of ±inf and 0, atanh of ±1 and 0, acosh of 1 and inf, asin and acos of ±1 (within 4 units), sin, cos, tan of '
     '±0. sinh and cosh are infinite beyond ±90 (712), tanh is ±1 beyond 44.',
     ['inputs'], 'every NaN, every argument outside of the domains, infinities included, 32 and 64 bits',
     'Generated tests stay inside the domains.',
     [L + 'log_exp.rs', L + 'inv_trig.rs', L + 'hyperbolic.rs', L + 'trig.rs', L + 'recip_sqrt.rs'],
     [('range checks of the functions', L + 'log_exp.rs'), ('and', L + 'hyperbolic.rs'), ('and ', L + 'inv_trig.rs')],
     ORACLE + 'with exact expected values', 'Points at all distances beyond the ends of the domains.' + TRUST + 'rustc.')
prop('C34', 'Generated constants are the nearest floats to their values',
     'Every constant in the output of any selection, in both widths, number types, as Rust and C, is the float nearest to its mathematical value '
     '(PI and fractions of it, log2 e and its reciprocal, log2 of 10, thirds, 1/sqrt(2 pi), tan(pi/8), the smallest normal number) or exactly the integer or bit mask it stands for.',
     ['configurations'], 'every constant, selection, width, number type and language',
     'No test looks at a constant.',
     [L + 'auxfuncs.rs', L + 'config.rs'], [('definitions of the constants', L + 'auxfuncs.rs')],
     PBT + 'against mpmath', 'Random selections; values read back from compiled code.' + TRUST + 'mpmath, rustc, gcc.')
prop('C35', 'Generated tests hold exact references and fail exactly beyond their limit',
     'The tables of a generated test list arguments in the range of the test and the true value of the function there to the last digit; the test passes if '
     'the largest error is within its limit and fails if any error is larger or the function is NaN or infinite where it should not be. The tests pass on the generated functions. '
     '--generate-plots writes the points of these tables.',
     ['configurations', 'inputs'], 'every function with tests, width and number type; every way a function can be wrong at a row',
     'The repository compiles some of the generated tests, which cannot tell a test that never fails.',
     [L + 'test.rs', L + 'functions.rs', L + 'main.rs'], [('test tables and limits', L + 'test.rs'), ('tests of each function', L + 'functions.rs')],
     PBT + 'mutating the functions under the generated tests', 'Tables against mpmath; tests run on deliberately wrong functions. Twelve known findings (DESIGN.md).' + TRUST + 'mpmath, rustc.')
prop('C36', 'The generated C functions are as accurate as the Rust ones',
     'Compiled as C, every function of C24 to C31 and C39 keeps within 1.2 times the error stated there, over the same arguments.',
     ['inputs'], 'every argument in these ranges, 32 and 64 bits',
     'No test compiles C.',
     [D + 'codegen/c.rs', L + 'functions.rs'], [('visitor that writes C', D + 'codegen/c.rs'), ('functions', L + 'functions.rs')],
     ORACLE + 'against quad precision', 'The points of C24 to C31 and C39, a quarter as many.' + TRUST + 'gcc, libquadmath.')
prop('C37', 'The generated portable-simd methods agree with the scalar functions bit by bit',
     'Each lane of every portable-simd method has exactly the bits of the scalar Rust function of the same name, for any number of lanes and any arguments, '
     'NaN and infinity included (ln_1p within 1.5 + 3|r| units).',
     ['inputs'], 'every function, argument and number of lanes, 32 and 64 bits',
     'No test compiles portable-simd output.',
     [D + 'codegen/portable_simd.rs', L + 'functions.rs'], [('visitor that makes methods', D + 'codegen/portable_simd.rs'), ('functions', L + 'functions.rs')],
     ORACLE + 'differential', 'Vectors of 4 and 7 lanes.' + TRUST + 'the simd shim, rustc.')
prop('C38', 'The command line selects, reports and writes what it says',
     'Functions, exclusion, width, number type, language, prefix and output are taken from the options in any order and spelling, with the documented defaults (64 bits, '
     'decimal, Rust, stdout). Unknown names are reported on stderr and the known ones still generated; `help` lists every function, group, constant and language; an unknown language, option or bad '
     'width prints an error, no code and writes no file.',
     ['configurations'], 'every command line',
     'No test runs the command line.',
     [L + 'main.rs'], [('options and selection', L + 'main.rs')],
     PBT + 'metamorphic, random command lines', 'Random option orders, names and errors.' + TRUST + 'nothing else.')
prop('C39', 'Generated helper functions do exactly what they say',
     'round is the nearest integer, ties away from 0, exactly for |x| ≤ 2^21 (2^50), the float just below a half excepted. negate_on_odd(a, b) is -b for odd whole a and b for even, for |a| ≤ 2^22. '
     'nextafter is the next float up of a positive number. recip_approx, sqrt_approx and cbrt_approx are within a tenth of the true value over 2^±120 (2^±1000), negative numbers included for recip and cbrt.',
     ['inputs'], 'every float in the ranges, 32 and 64 bits',
     'Only nextafter has a generated test.',
     [L + 'auxfuncs.rs', L + 'recip_sqrt.rs'], [('helpers', L + 'auxfuncs.rs'), ('estimates', L + 'recip_sqrt.rs')],
     ORACLE + 'against exact results', 'Ties and their neighbours, all magnitudes.' + TRUST + 'rustc.')
prop('C40', 'Generated functions keep the exact symmetries of the true ones',
     'sin, tan, asin, atan, sinh, asinh, atanh, cbrt, recip and round are exactly odd, cos and cosh exactly even, as are both parts of sin_cos; hypot ignores signs and order; '
     'atan2(-y, x) = -atan2(y, x); powi of a negated base changes sign with odd exponents only. exp2 of a whole number and log2 of a power of two are exact.',
     ['inputs'], 'every float in the domains, 32 and 64 bits',
     'No test compares an argument with its mirror image.',
     [L + 'trig.rs', L + 'inv_trig.rs', L + 'hyperbolic.rs', L + 'recip_sqrt.rs', L + 'log_exp.rs'],
     [('sign handling', L + 'hyperbolic.rs'), ('reduction', L + 'trig.rs'), ('exponent bits', L + 'log_exp.rs')],
     ORACLE + 'metamorphic, bitwise', 'Mirrored pairs over the domains.' + TRUST + 'rustc.')
prop('C41', 'Generated functions return for every argument, also with overflow checks',
     'Every generated Rust function that can be asked for, compiled with overflow checks and debug assertions and without optimisation, returns for every argument of its types (all bit patterns of '
     'floats and integers, powi, runif and rnorm included) without a panic, and returns bit by bit what it returns compiled with optimisation and '
     'without these checks (NaN for NaN).',
     ['inputs', 'configurations'], 'every function, 32 and 64 bits, every argument',
     'The generated tests run over sensible arguments only; shifts and integer arithmetic on the bits of others overflow only for particular exponents and indices.',
     [L + 'log_exp.rs', L + 'trig.rs', L + 'stats_random.rs', L + 'auxfuncs.rs', L + 'recip_sqrt.rs'],
     [('exponent arithmetic', L + 'log_exp.rs'), ('integer arithmetic on indices', L + 'stats_random.rs'), ('bit estimates', L + 'recip_sqrt.rs')],
     ORACLE + 'differential between builds', 'Bit patterns, special values and ordinary numbers, a million cases.' + TRUST + 'rustc.')
prop('C42', 'C output is refused or right, whatever the Rust',
     'Whatever functions to_c is given (methods, paths, casts and literals of every type, patterns, arrays, tuples, structs, closures, loops, match, return, if statements, shadowing, items of '
     'every kind, in 64 bits), it panics, or its text is not accepted by the C compiler and linker (implicit declarations being errors), or the C computes '
     'what the Rust functions compute. C that compiles and computes something else is never written (four known findings, DESIGN.md).',
     ['programs', 'inputs'], 'every Rust program over numbers and every argument whose conversions are in range',
     'No test gives the back end Rust that it does not support; text it passes through that means something else in C goes unnoticed.',
     [D + 'codegen/c.rs'], [('visitor that writes C', D + 'codegen/c.rs')],
     PBT + 'differential against rustc, random programs of unsupported constructs', 'Fifty kinds of constructs in random surroundings.' + TRUST + 'rustc, gcc.')
prop('C43', 'Portable-simd output is refused or right, whatever the Rust',
     'Whatever functions of float arguments to_simd is given (the constructs of C42; effects and exits in branches and in second operands of && and ||; integers, constants, '
     'parameters and results of every type; closures; in 32 and 64 bits), it panics, or rustc rejects the methods, or the methods give in every lane '
     'what the functions give for the elements. Methods that compile and compute something else are never written. Left out: functions that call '
     'themselves, and divisions of integers that panic in the branch not taken.',
     ['programs', 'inputs'], 'every Rust program over numbers, every number of lanes and every argument',
     'No test compiles the methods; both branches of a select are evaluated, types are rewritten and calls become methods, which is right only for some programs.',
     [D + 'codegen/portable_simd.rs'], [('visitor that makes methods of functions', D + 'codegen/portable_simd.rs')],
     PBT + 'differential against rustc, random programs of unsupported constructs', 'Seventy kinds of constructs in random surroundings.' + TRUST +
     'rustc; lib/simd_shim.rs stands in for the portable-simd crate.')
prop('C44', 'expr!, name! and vars! mean what parsing their text means',
     'An expression, a path or a list of bindings that is written out in expr!, name! or vars! is the expression, name or variable list that '
     'parsing its text gives, literals and grouping included, with the bindings in the order written.',
     ['programs'], 'every expression, path and list of bindings whose tokens are written in the macro (not passed on by another macro; not `1 .0`, a float to rustc)',
     'Tests write small expressions, whose literals and grouping survive most mistakes.',
     [D + 'expression.rs', D + 'variablelist.rs', D + 'name.rs'], [('expr!', D + 'expression.rs'), ('vars!', D + 'variablelist.rs'), ('name!', D + 'name.rs')],
     PBT + 'differential against parsing, random uses compiled', 'Programs of 30 random uses.' + TRUST + 'rustc; syn parses the text.')
prop('C45', 'Chains of transformations and operators keep the value at every step',
     'Whatever sequence of expand, paren, collect_terms, substitutions, operators, printing and parsing is applied to an expression, after each step the '
     'expression in memory and the one that its text reads back to have the value that only the substitutions and operators account for; and evaluating the result of '
     'the whole sequence, with every variable bound to a number, gives this value to the digits asked for.',
     ['histories', 'programs'], 'every expression, every sequence of steps, every assignment',
     'Tests apply one transformation to a freshly parsed expression; trees that other steps made have shapes that no text parses to.',
     [D + 'expression.rs', D + 'transformation/expand.rs', D + 'transformation/paren.rs', D + 'transformation/subst.rs', D + 'transformation/tools.rs'],
     [('operators', D + 'expression.rs'), ('expansion', D + 'transformation/expand.rs'), ('substitution', D + 'transformation/subst.rs')],
     PBT + 'stateful, against a reference tree', 'Histories of 2 to 8 steps.' + TRUST + 'exact rational arithmetic, syn.')
prop('C46', 'The error of eval names the first part without a value',
     'If an expression of numbers, names, operators and methods has no value, the error that eval returns says CouldNotEvaluate with the text of a part of this expression: the '
     'first one, in the order of evaluation (operands and arguments from left to right, then the operation), that has no value although its own parts have; and if every part has '
     'a value, there is no error.',
     ['programs'], 'every expression around parts without a value, at any depth, any number of them',
     'Tests look at whether there is an error, not at what it says.',
     [D + 'transformation/eval.rs', D + 'error.rs'], [('errors of methods, operators and names', D + 'transformation/eval.rs')],
     PBT + 'metamorphic: the parts evaluated by themselves', 'Random nestings of 60 kinds of parts without a value.' + TRUST + 'syn parses the text of the error.')
prop('C47', 'Results depend on the arguments only, not on what ran before or beside',
     'Evaluating, transforming, approximating and writing code give the same result for the same arguments whatever the process did before, fails, panics and other numbers of '
     'digits included, in any order, in any thread, and in every process. libmgen writes the same bytes in any directory, with any environment and input, beside other runs, and leaves no files behind unless asked to.',
     ['histories', 'schedules'], 'every history of operations, every interleaving of threads, every environment',
     'Tests call each operation once in a fresh process or in an order that nobody chooses.',
     [D + 'bdmath.rs', D + 'transformation/eval.rs', D + 'codegen/c.rs', D + 'codegen/portable_simd.rs', L + 'main.rs'],
     [('constants and series', D + 'bdmath.rs'), ('state of the visitors', D + 'codegen/c.rs'), ('generator', L + 'main.rs')],
     PBT + 'stateful: permuted and concurrent histories compared', 'Histories of 2 to 8 operations in one process, another one and threads.' + TRUST + 'the scheduler decides the interleavings.')
prop('C48', 'Generated tests report the worst row of their table and judge by it',
     'The test function that --generate-tests writes prints, for any table and function, its name, the largest error (NaN above all others), the limit, and the argument, value and '
     'reference (bits and decimal) of a row with that error; and it passes exactly if this error is no NaN and no more than the limit.',
     ['inputs'], 'every table of rows, limit and function, 32 and 64 bits',
     'The tests of the repository pass, so that nobody reads the report until it matters; a table with NaN, infinite or equal errors never comes up.',
     [L + 'auxfuncs.rs'], [('test function', L + 'auxfuncs.rs')],
     PBT + 'against a reference report', 'Random tables with planned errors, run through the generated function.' + TRUST + 'rustc, numpy floats.')

prop('C49', 'The generated C means the same to every compiler',
     'The C library that is generated, 32 and 64 bits, has defined behaviour: for any arguments of the functions that can be asked for no operation is undefined in C (but for conversions of floats that do not fit '
     'the integer), and what gcc and clang make of it, with or without optimisation, returns the same bits for arguments whose conversions fit.',
     ['inputs'], 'every function of the C library and every argument; gcc, clang, -O0 and -O3 on x86-64',
     'The generated tests are Rust, where overflow and shifts are defined; the C is compiled by no test.',
     [L + 'trig.rs', L + 'log_exp.rs', L + 'recip_sqrt.rs', L + 'auxfuncs.rs', 'doctor-syn/src/codegen/c.rs'],
     [('generate_libm', L + 'main.rs'), ('negate_on_odd', L + 'auxfuncs.rs'), ('to_c', 'doctor-syn/src/codegen/c.rs')],
     PBT + 'differential between compilers, undefined behaviour sanitizer', 'Random bit patterns and ordinary arguments through builds of the library.' + TRUST + 'gcc, clang, UBSan.')
