package especia;

import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * IEEE-754 binary64 numbers for TLC. A real is a pair <<hi, lo>> of 32-bit
 * integers (its bit pattern), an integer, or a string that is a number.
 */
public final class Real64 {
    static final String M = "Real64";

    static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        if (v instanceof StringValue) {
            return parse(((StringValue) v).val.toString());
        }
        final TupleValue t = tuple(v);
        if (t == null || t.elems.length != 2) {
            throw new RuntimeException("not a real number: " + v);
        }
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xFFFFFFFFL));
    }

    static double parse(final String s) {
        switch (s) {
        case "inf":
            return Double.POSITIVE_INFINITY;
        case "-inf":
            return Double.NEGATIVE_INFINITY;
        case "nan":
        case "-nan":
            return Double.NaN;
        default:
            return Double.parseDouble(s);
        }
    }

    static TupleValue tuple(final Value v) {
        if (v instanceof TupleValue) {
            return (TupleValue) v;
        }
        final Value t = v.toTuple();
        return (TupleValue) t;
    }

    static Value r(final double x) {
        final long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }

    static double[] v(final Value x) {
        final TupleValue t = tuple(x);
        if (t == null) {
            throw new RuntimeException("not a vector: " + x);
        }
        final double[] a = new double[t.elems.length];
        for (int i = 0; i < a.length; ++i) {
            a[i] = d(t.elems[i]);
        }
        return a;
    }

    static Value v(final double[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; ++i) {
            e[i] = r(a[i]);
        }
        return new TupleValue(e);
    }

    static Value b(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static boolean close(final double a, final double b, final double rtol, final double atol) {
        if (Double.isNaN(a) || Double.isNaN(b)) {
            return Double.isNaN(a) && Double.isNaN(b);
        }
        if (Double.isInfinite(a) || Double.isInfinite(b)) {
            return a == b;
        }
        return Math.abs(a - b) <= atol + rtol * Math.max(Math.abs(a), Math.abs(b));
    }

    @TLAPlusOperator(identifier = "R", module = M, warn = false)
    public static Value real(final Value x) { return r(d(x)); }

    @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
    public static Value add(final Value x, final Value y) { return r(d(x) + d(y)); }

    @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
    public static Value sub(final Value x, final Value y) { return r(d(x) - d(y)); }

    @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
    public static Value mul(final Value x, final Value y) { return r(d(x) * d(y)); }

    @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
    public static Value div(final Value x, final Value y) { return r(d(x) / d(y)); }

    @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
    public static Value neg(final Value x) { return r(-d(x)); }

    @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
    public static Value abs(final Value x) { return r(Math.abs(d(x))); }

    @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
    public static Value sqrt(final Value x) { return r(Math.sqrt(d(x))); }

    @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
    public static Value exp(final Value x) { return r(Math.exp(d(x))); }

    @TLAPlusOperator(identifier = "RLog", module = M, warn = false)
    public static Value log(final Value x) { return r(Math.log(d(x))); }

    @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
    public static Value pow(final Value x, final Value y) { return r(Math.pow(d(x), d(y))); }

    @TLAPlusOperator(identifier = "RCosh", module = M, warn = false)
    public static Value cosh(final Value x) { return r(Math.cosh(d(x))); }

    @TLAPlusOperator(identifier = "RFloor", module = M, warn = false)
    public static Value floor(final Value x) { return r(Math.floor(d(x))); }

    @TLAPlusOperator(identifier = "RCeil", module = M, warn = false)
    public static Value ceil(final Value x) { return r(Math.ceil(d(x))); }

    @TLAPlusOperator(identifier = "RInt", module = M, warn = false)
    public static Value toInt(final Value x) {
        final double a = d(x);
        if (!(Math.abs(a) < 2147483647.0)) {
            throw new RuntimeException("not a small integer: " + a);
        }
        return IntValue.gen((int) a);
    }

    @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
    public static Value lt(final Value x, final Value y) { return b(d(x) < d(y)); }

    @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
    public static Value le(final Value x, final Value y) { return b(d(x) <= d(y)); }

    @TLAPlusOperator(identifier = "REq", module = M, warn = false)
    public static Value eq(final Value x, final Value y) { return b(d(x) == d(y)); }

    @TLAPlusOperator(identifier = "RIsFinite", module = M, warn = false)
    public static Value isFinite(final Value x) { return b(Double.isFinite(d(x))); }

    @TLAPlusOperator(identifier = "RIsNaN", module = M, warn = false)
    public static Value isNaN(final Value x) { return b(Double.isNaN(d(x))); }

    @TLAPlusOperator(identifier = "RClose", module = M, warn = false)
    public static Value close(final Value x, final Value y, final Value rtol, final Value atol) {
        return b(close(d(x), d(y), d(rtol), d(atol)));
    }

    /** Error function: series for small, continued fraction for large arguments (full double precision). */
    static double erf(final double x) {
        if (Double.isNaN(x)) {
            return x;
        }
        final double a = Math.abs(x);
        double e;
        if (a < 2.5) {
            // 2/sqrt(pi) * exp(-x^2) * sum_{n} 2^n x^(2n+1) / (2n+1)!!
            double t = a;
            double s = a;
            for (int n = 1; n < 200; ++n) {
                t *= 2.0 * a * a / (2.0 * n + 1.0);
                s += t;
                if (t < 1.0e-18 * s) {
                    break;
                }
            }
            e = 2.0 / Math.sqrt(Math.PI) * Math.exp(-a * a) * s;
        } else if (a < 6.5) {
            double f = 0.0;
            for (int n = 120; n > 0; --n) {
                f = 0.5 * n / (a + f);
            }
            e = 1.0 - Math.exp(-a * a) / Math.sqrt(Math.PI) / (a + f);
        } else {
            e = 1.0;
        }
        return x < 0.0 ? -e : e;
    }

    @TLAPlusOperator(identifier = "RErf", module = M, warn = false)
    public static Value erf(final Value x) { return r(erf(d(x))); }

    // Vectors

    @TLAPlusOperator(identifier = "V", module = M, warn = false)
    public static Value vec(final Value x) { return v(v(x)); }

    @TLAPlusOperator(identifier = "VAdd", module = M, warn = false)
    public static Value vadd(final Value x, final Value y) {
        final double[] a = v(x), b = v(y);
        for (int i = 0; i < a.length; ++i) { a[i] += b[i]; }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VSub", module = M, warn = false)
    public static Value vsub(final Value x, final Value y) {
        final double[] a = v(x), b = v(y);
        for (int i = 0; i < a.length; ++i) { a[i] -= b[i]; }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VMul", module = M, warn = false)
    public static Value vmul(final Value x, final Value y) {
        final double[] a = v(x), b = v(y);
        for (int i = 0; i < a.length; ++i) { a[i] *= b[i]; }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VDiv", module = M, warn = false)
    public static Value vdiv(final Value x, final Value y) {
        final double[] a = v(x), b = v(y);
        for (int i = 0; i < a.length; ++i) { a[i] /= b[i]; }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VScale", module = M, warn = false)
    public static Value vscale(final Value s, final Value x) {
        final double[] a = v(x);
        final double t = d(s);
        for (int i = 0; i < a.length; ++i) { a[i] *= t; }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VExp", module = M, warn = false)
    public static Value vexp(final Value x) {
        final double[] a = v(x);
        for (int i = 0; i < a.length; ++i) { a[i] = Math.exp(a[i]); }
        return v(a);
    }

    @TLAPlusOperator(identifier = "VSum", module = M, warn = false)
    public static Value vsum(final Value x) {
        double s = 0.0;
        for (final double a : v(x)) { s += a; }
        return r(s);
    }

    @TLAPlusOperator(identifier = "VDot", module = M, warn = false)
    public static Value vdot(final Value x, final Value y) {
        final double[] a = v(x), b = v(y);
        double s = 0.0;
        for (int i = 0; i < a.length; ++i) { s += a[i] * b[i]; }
        return r(s);
    }

    @TLAPlusOperator(identifier = "VMaxAbs", module = M, warn = false)
    public static Value vmaxabs(final Value x) {
        double s = 0.0;
        for (final double a : v(x)) { s = Double.isNaN(a) ? a : Math.max(s, Math.abs(a)); }
        return r(s);
    }

    @TLAPlusOperator(identifier = "VClose", module = M, warn = false)
    public static Value vclose(final Value x, final Value y, final Value rtol, final Value atol) {
        final double[] a = v(x), b = v(y);
        if (a.length != b.length) {
            return BoolValue.ValFalse;
        }
        final double p = d(rtol), q = d(atol);
        for (int i = 0; i < a.length; ++i) {
            if (!close(a[i], b[i], p, q)) {
                return BoolValue.ValFalse;
            }
        }
        return BoolValue.ValTrue;
    }

    // Formatting and diagnosis

    @TLAPlusOperator(identifier = "RFixed", module = M, warn = false)
    public static Value fixed(final Value x, final Value p) {
        final double a = d(x);
        if (!Double.isFinite(a)) {
            return new StringValue(Double.isNaN(a) ? "nan" : a < 0 ? "-inf" : "inf");
        }
        String s = new BigDecimal(Math.abs(a)).setScale(((IntValue) p).val, RoundingMode.HALF_EVEN).toPlainString();
        if (a < 0 || (a == 0 && 1 / a < 0)) { s = "-" + s; }
        return new StringValue(s);
    }

    @TLAPlusOperator(identifier = "RSci", module = M, warn = false)
    public static Value sci(final Value x, final Value p) {
        final double a = d(x);
        final int n = ((IntValue) p).val;
        if (!Double.isFinite(a)) {
            return new StringValue(Double.isNaN(a) ? "nan" : a < 0 ? "-inf" : "inf");
        }
        final String sign = a < 0 || (a == 0 && 1 / a < 0) ? "-" : "";
        String digits;
        int e;
        if (a == 0.0) {
            digits = "0".repeat(n + 1);
            e = 0;
        } else {
            final BigDecimal q = new BigDecimal(Math.abs(a)).round(new MathContext(n + 1, RoundingMode.HALF_EVEN));
            digits = q.unscaledValue().toString();
            e = digits.length() - 1 - q.scale();
            while (digits.length() < n + 1) { digits += "0"; }
            digits = digits.substring(0, n + 1);
        }
        final String m = n > 0 ? digits.charAt(0) + "." + digits.substring(1) : digits;
        final String ex = (e < 0 ? "-" : "+") + (Math.abs(e) < 10 ? "0" : "") + Math.abs(e);
        return new StringValue(sign + m + "e" + ex);
    }

    @TLAPlusOperator(identifier = "RStr", module = M, warn = false)
    public static Value str(final Value x) {
        return new StringValue(Double.toString(d(x)));
    }

    @TLAPlusOperator(identifier = "VStr", module = M, warn = false)
    public static Value vstr(final Value x) {
        return new StringValue(java.util.Arrays.toString(v(x)));
    }
}
