HEAD = '''## 5. Planted bugs

Each is in `seeded/<id>/` with a demonstration; all were confirmed in copies (`tools/plants/try.sh`): the demonstration passes
before and fails after, the build and the stable tests pass, and the check of the property reports it. `tools/plants/plants.py` is
their source. Where a check had to be strengthened first, the last column says so.'''
NOTES = {
 'C11-minus-minus': 'C11, once random trees wrapped an operand several times (`- -x`, `((x))`, `x.f().g()`)',
 'C14-integers-by-f64': 'C14, once integers next to the middle of two floats were generated',
 'C15-turbofish': 'C15, once methods had type arguments and the driver showed them',
 'C19-prefix-once': 'C19, once prefixes could be the beginning of the name of a function',
 'C38-stale-tail': 'C38 and C22, once -o pointed at an existing, longer file',
 'C20-ge-lanes': 'C20 (shrinking took 5 minutes: it is now limited to one)',
 'C03-erf-saturates': 'C03, once erf and the distribution were checked further out, to more digits',
 'C12-differences-cut': 'C12, once the bound on the divided differences was tight',
 'C13-single-end': 'C13, once ends were arbitrary doubles',
 'C35-plot-columns': 'C35, once the columns of plots were checked exactly',
 'C18-remainder': 'C18, once integer / and % were generated',
 'C41-unsigned-exponent': 'C41',
 'C42-small-ints': 'C42', 'C42-tuple-comma': 'C42', 'C42-references-by-value': 'C42',
 'C43-all-widths': 'C43', 'C43-literal-type': 'C43', 'C43-last-statement': 'C43, once branches had several statements',
 'C43-qualified-calls': 'C43, once modules and types had functions named as methods',
 'C47-digits-in-static': 'C47, once operations with different parameters were repeated side by side in threads',
 'C49-exponent-by-difference': 'C49, once the build with the sanitizer was not optimised',
 'C44-sequential-bindings': 'C44', 'C44-outer-parentheses': 'C44',
}
