/* Reference values in quadruple precision. argv[1]: function; stdin: records of argv[2] doubles;
   stdout: two doubles per record, whose sum is the value to about 31 digits. */
#include <quadmath.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef __float128 q;
static q pn(q z) { return erfcq(-z / sqrtq(2.0Q)) / 2; }
static q qn(q p)
{
    if (p <= 0) return -HUGE_VALQ;
    if (p >= 1) return HUGE_VALQ;
    if (p == 0.5Q) return 0;
    q s = p < 0.5Q ? p : 1 - p, t = sqrtq(-2 * logq(s));
    q x = -(t - (2.515517Q + 0.802853Q * t + 0.010328Q * t * t) /
        (1 + 1.432788Q * t + 0.189269Q * t * t + 0.001308Q * t * t * t));
    if (s > 0.49Q) x = (s - 0.5Q) * sqrtq(2 * M_PIq);
    for (int i = 0; i < 8; i++) {
        q e = pn(x) - s, d = expq(-x * x / 2) / sqrtq(2 * M_PIq), u = e / d;
        x = x - u / (1 + x * u / 2);
    }
    return p < 0.5Q ? x : -x;
}
static q f_log2(q x) { return logq(x) / M_LN2q; }
static q f_log10(q x) { return log10q(x); }
static q f_exp2(q x) { return powq(2, x); }
static q f_recip(q x) { return 1 / x; }
static q f_id(q x) { return x; }
static struct { const char *n; q (*f)(q); } one[] = {
    {"sin", sinq}, {"cos", cosq}, {"tan", tanq}, {"asin", asinq}, {"acos", acosq}, {"atan", atanq},
    {"exp2", f_exp2}, {"exp", expq}, {"exp_m1", expm1q}, {"log2", f_log2}, {"ln", logq}, {"log10", f_log10},
    {"ln_1p", log1pq}, {"sinh", sinhq}, {"cosh", coshq}, {"tanh", tanhq}, {"asinh", asinhq}, {"acosh", acoshq},
    {"atanh", atanhq}, {"sqrt", sqrtq}, {"cbrt", cbrtq}, {"recip", f_recip}, {"round", roundq},
    {"recip_approx", f_recip}, {"sqrt_approx", sqrtq}, {"cbrt_approx", cbrtq}, {"id", f_id}, {0, 0}};
int main(int argc, char **argv)
{
    const char *n = argv[1];
    int k = atoi(argv[2]);
    q (*f)(q) = 0;
    for (int i = 0; one[i].n; i++) if (!strcmp(one[i].n, n)) f = one[i].f;
    double r[4];
    while (fread(r, 8, k, stdin) == (size_t)k) {
        q a = r[0], b = k > 1 ? r[1] : 0, c = k > 2 ? r[2] : 0, v;
        if (f) v = f(a);
        else if (!strcmp(n, "atan2")) v = atan2q(a, b);
        else if (!strcmp(n, "log")) v = logq(a) / logq(b);
        else if (!strcmp(n, "powf") || !strcmp(n, "powi")) v = powq(a, b);
        else if (!strcmp(n, "hypot")) v = hypotq(a, b);
        else if (!strcmp(n, "dnorm")) v = expq(-((a - b) / c) * ((a - b) / c) / 2) / (c * sqrtq(2 * M_PIq));
        else if (!strcmp(n, "qnorm")) v = b + c * qn(a);
        else return 3;
        double o[2];
        o[0] = (double)v;
        o[1] = isinf(o[0]) || isnan(o[0]) ? 0 : (double)(v - o[0]);
        fwrite(o, 8, 2, stdout);
    }
    return 0;
}
